------------------------------ MODULE Pushback ------------------------------
(* A push-back stream over an underlying stream.  src: what the underlying stream still has
   to give (0 a pause, k > 0 the item k); held: the pushed-back item, <<>> if none; out: the
   items read so far; all: what should have been read by the end, in order, kept by the
   specification of the intent (an item goes in front of the rest when it is pushed back). *)
EXTENDS Naturals, Sequences, TLC, Json

VARIABLES src, held, out, due, fresh, hist
vars == <<src, held, out, due, fresh, hist>>

Items(s) == SelectSeq(s, LAMBDA x : x # 0)

PInit(s) == src = s /\ held = <<>> /\ out = <<>> /\ due = Items(s) /\ fresh = 100 /\ hist = <<>>

(* result of a read: r "item" with v, "pend", "end" *)
ReadRes == IF held # <<>> THEN [r |-> "item", v |-> held[1]]
           ELSE IF src = <<>> THEN [r |-> "end", v |-> 0]
           ELSE IF src[1] = 0 THEN [r |-> "pend", v |-> 0]
           ELSE [r |-> "item", v |-> src[1]]
Read == /\ held' = <<>>
        /\ src' = IF held = <<>> /\ src # <<>> THEN Tail(src) ELSE src
        /\ out' = IF ReadRes.r = "item" THEN Append(out, ReadRes.v) ELSE out
        /\ due' = IF ReadRes.r = "item" THEN Tail(due) ELSE due
        /\ UNCHANGED fresh
PushRes == [r |-> IF held = <<>> THEN "ok" ELSE "refused", v |-> fresh]
Push == /\ held' = IF held = <<>> THEN <<fresh>> ELSE held
        /\ due' = IF held = <<>> THEN <<fresh>> \o due ELSE due
        /\ fresh' = fresh + 1
        /\ UNCHANGED <<src, out>>

Took(op, res) == hist' = Append(hist, <<op, res.r, res.v>>)
=============================================================================

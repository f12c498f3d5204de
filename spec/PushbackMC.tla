----------------------------- MODULE PushbackMC -----------------------------
(* All histories of N operations over all underlying streams of up to M entries. *)
EXTENDS Pushback
CONSTANTS N, M, EmitIt
VARIABLES src0

Scripts == UNION {{s \in [1..m -> 0..m] : \A i \in 1..m : s[i] \in {0, i}} : m \in 0..M}
MInit == \E s \in Scripts : src0 = s /\ PInit(s)
MNext == /\ Len(hist) < N
         /\ \/ Read /\ Took("read", ReadRes)
            \/ Push /\ Took("push", PushRes)
         /\ UNCHANGED src0
MSpec == MInit /\ [][MNext]_<<vars, src0>>

(* what is still to come is what is held, then the rest of the source *)
Rest == due = held \o Items(src)
OneHeld == Len(held) <= 1
(* each accepted push is read exactly once, right after it is made if the next op is a read *)
Nth(k) == hist[k]
Next1 == \A k \in 1..(Len(hist) - 1) :
            hist[k][1] = "push" /\ hist[k][2] = "ok" /\ hist[k + 1][1] = "read" => hist[k + 1] = <<"read", "item", hist[k][3]>>
Reads == {k \in 1..Len(hist) : hist[k][1] = "read" /\ hist[k][2] = "item"}
OnceEach == \A j, k \in Reads : j # k => hist[j][3] # hist[k][3]
RefusedNever == \A k \in 1..Len(hist) : hist[k][2] = "refused" => \A j \in Reads : hist[j][3] # hist[k][3]
InOrder == \A j, k \in Reads : j < k /\ hist[j][3] < 100 /\ hist[k][3] < 100 => hist[j][3] < hist[k][3]
NoneLost == \A i \in 1..Len(Items(src0)) : LET x == Items(src0)[i] IN
               (\E k \in Reads : hist[k][3] = x) \/ (\E k \in 1..Len(src) : src[k] = x)
Emit == EmitIt /\ Len(hist) = N => PrintT(<<"HIST", ToJson([src |-> src0, hist |-> hist])>>)
=============================================================================

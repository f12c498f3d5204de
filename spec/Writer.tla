------------------------------- MODULE Writer -------------------------------
(* Writing a value out to an output that takes as little as it likes of each piece offered,
   can be interrupted, be full (takes nothing) or fail.  due: the bytes of the value not yet
   taken; did: "" while writing, then "ok" or "err"; bad: the output was full or failed. *)
EXTENDS Naturals, Sequences

VARIABLES due, did, bad
wvars == <<due, did, bad>>

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

WInit(w) == due = w /\ did = "" /\ bad = FALSE
(* the output took these bytes *)
Take(bs) == did = "" /\ ~bad /\ Prefix(bs, due) /\ due' = SubSeq(due, Len(bs) + 1, Len(due)) /\ UNCHANGED <<did, bad>>
(* it asked to be tried again *)
Interrupt == did = "" /\ UNCHANGED wvars
(* it took nothing of a piece that was not empty, or failed: nothing more may be taken, for
   that would leave a hole *)
Fault == did = "" /\ bad' = TRUE /\ UNCHANGED <<due, did>>
(* success says that all of it was taken, failure that the output failed *)
Finish(r) == did = "" /\ (r = "ok" => due = <<>> /\ ~bad) /\ (r = "err" => bad) /\ r \in {"ok", "err"} /\ did' = r /\ UNCHANGED <<due, bad>>
=============================================================================

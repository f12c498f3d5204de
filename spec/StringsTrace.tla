----------------------------- MODULE StringsTrace -----------------------------
(* What the real texts held after each operation.  A step: op, and see: for every text held
   its bytes, whether all ways of reading them agree, its length, and eq: for each pair of texts held
   (in order) whether the library calls them equal, and their hashes agree if so. *)
EXTENDS Strings, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
TInit == \E i \in 1..Len(Traces) : t = i /\ l = 1 /\ slots = <<>>
Ev == Traces[t].ev[l]
Do == LET o == Ev.op
      IN CASE o[1] = "new" -> New(o[2])
           [] o[1] = "dup" -> Dup(o[2])
           [] o[1] = "join" -> Join(o[2], o[3])
           [] o[1] = "chop" -> Chop(o[2], o[3])
           [] o[1] = "del" -> Del(o[2])
Why == CASE ~Ev.ok -> "panic"
         [] ~Ev.shown -> ""
         [] Len(Ev.see) # Len(slots') -> "another number of texts"
         [] \E k \in 1..Len(slots') : Ev.see[k].b # slots'[k] -> "another value"
         [] \E k \in 1..Len(slots') : Ev.see[k].n # Len(slots'[k]) -> "another length"
         [] \E k \in 1..Len(slots') : ~Ev.see[k].same -> "ways of reading it differ"
         [] \E k \in 1..Len(Ev.eq) : LET e == Ev.eq[k] IN e[3] # (slots'[e[1]] = slots'[e[2]]) \/ (e[3] /\ ~e[4]) -> "equality"
         [] OTHER -> ""
TNext == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ UNCHANGED t
         /\ Do
         /\ IF Why = "" THEN l' = l + 1 /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
            ELSE PrintT(<<"REJECT", t, l, Why>>) /\ l' = 0
TSpec == TInit /\ [][TNext]_<<slots, t, l>>
=============================================================================

----------------------------- MODULE ViewTrace -----------------------------
(* What the real views said.  A record: base, and ev, the cuts, each with its op, whether it was
   refused, and see: what was asked about the views then, and about all once the string they
   were made from was gone. *)
EXTENDS View, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
TInit == \E i \in 1..Len(Traces) : t = i /\ l = 1 /\ views = <<Traces[i].base>>
Ev == Traces[t].ev[l]
Answer(v, q) == CASE q[1] = "find" -> q[3] = Find(v, q[2])
                  [] q[1] = "begins" -> q[3] = Begins(v, q[2], Equal)
                  [] q[1] = "nocase" -> q[3] = Begins(v, q[2], NoCase)
                  [] q[1] = "position" -> q[3] = Find(v, <<q[2]>>)
                  [] q[1] = "index" -> q[3] = Index(v, q[2])
Wrong(s) == LET v == views'[s.v]
            IN CASE s.n # Len(v) -> "another length"
                 [] s.b # v -> "other bytes"
                 [] ~s.same -> "ways of reading it differ"
                 [] s.utf8 # Utf8(v) -> "taken for text wrongly"
                 [] \E k \in 1..Len(s.q) : ~Answer(v, s.q[k]) -> "a wrong answer"
                 [] OTHER -> ""
Bad == {k \in 1..Len(Ev.see) : Wrong(Ev.see[k]) # ""}
Why == CASE Ev.op[1] # "look" /\ Ev.ok /\ ~Can(Ev.op) -> "a cut outside of the view"
         [] Ev.op[1] # "look" /\ ~Ev.ok /\ Can(Ev.op) -> "a cut inside of the view refused"
         [] Ev.op[1] = "look" /\ ~Ev.ok -> "panic"
         [] Bad # {} -> Wrong(Ev.see[CHOOSE k \in Bad : TRUE])
         [] \E k \in 1..Len(Ev.eq) : LET e == Ev.eq[k] IN (e[1] = e[2] /\ ~e[3]) \/ (e[3] /\ views'[e[1]] # views'[e[2]]) -> "equality"
         [] OTHER -> ""
TNext == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ UNCHANGED t
         /\ IF Ev.op[1] = "look" THEN UNCHANGED views ELSE Take(Ev.op)
         /\ IF Why = "" THEN l' = l + 1 /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
            ELSE PrintT(<<"REJECT", t, l, Why>>) /\ l' = 0
TSpec == TInit /\ [][TNext]_<<views, t, l>>
=============================================================================

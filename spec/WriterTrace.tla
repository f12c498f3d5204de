----------------------------- MODULE WriterTrace -----------------------------
(* What the real writers did with scripted outputs: w the bytes of the value, ev the answers
   of the output (["t", bytes taken], ["i"], ["f"]) and at last the result (["ok"] ["err"]
   ["panic"]). *)
EXTENDS Writer, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
TInit == \E i \in 1..Len(Traces) : t = i /\ l = 1 /\ WInit(Traces[i].w)
Ev == Traces[t].ev[l]
Step == CASE Ev[1] = "t" -> Take(Ev[2])
          [] Ev[1] = "i" -> Interrupt
          [] Ev[1] = "f" -> Fault
          [] OTHER -> Finish(Ev[1])
Why == CASE Ev[1] = "t" -> IF bad THEN "goes on after a failure" ELSE "other bytes than the next ones"
         [] Ev[1] = "ok" -> "success without having written everything"
         [] Ev[1] = "err" -> "failure although the output did not fail"
         [] OTHER -> Ev[1]
TNext == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ UNCHANGED t
         /\ IF ENABLED Step
            THEN Step /\ l' = l + 1 /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
            ELSE PrintT(<<"REJECT", t, l, Why>>) /\ l' = 0 /\ UNCHANGED wvars
TSpec == TInit /\ [][TNext]_<<wvars, t, l>>
=============================================================================

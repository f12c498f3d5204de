----------------------------- MODULE QueueTrace -----------------------------
(* Recorded runs of the real queue runner, checked against Queue: after each event the
   operations under way must be those of the model. *)
EXTENDS Queue, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<qvars, t, l>>

TInit == \E i \in 1..Len(Traces) : t = i /\ l = 1 /\ QInit(Traces[i].st)
Ev == Traces[t].ev[l]
AsSet(s) == {s[i] : i \in 1..Len(s)}
OpsAfter(e) == AsSet(e.outs)
Good(e) == Cardinality(OpsAfter(e)) = Len(e.outs) /\ OpsAfter(e) = ops'

Act(e) == CASE e.a = "tick" -> Tick
            [] e.a = "wait" -> UNCHANGED qvars     \* almost a tick
            [] e.a = "crash" -> Crash(AsSet(e.effs))
            [] OTHER -> Step(e.a, e.m, e.c, e.r)

TNext == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
         /\ Act(Ev)
         /\ IF Ev.skip \/ Good(Ev)
            THEN /\ l' = l + 1
                 /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
            ELSE l' = 0 /\ PrintT(<<"REJECT", t, l, ToJson(ops' \ OpsAfter(Ev)), ToJson(OpsAfter(Ev) \ ops')>>)
TSpec == TInit /\ [][TNext]_tvars

(* the same safety properties, along the recorded runs *)
NoLoss == \A m \in Mails : st[m] = "gone" => m \in taken
=============================================================================

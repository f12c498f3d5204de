---------------------------- MODULE PushbackTrace ----------------------------
(* Long recorded histories of the real push-back stream, replayed against Pushback. *)
EXTENDS Pushback, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
TInit == \E i \in 1..Len(Traces) : t = i /\ l = 1 /\ PInit(Traces[i].src)
Ev == Traces[t].hist[l]
Res == IF Ev[1] = "read" THEN ReadRes ELSE PushRes
Matches == Ev[2] = Res.r /\ (Ev[2] \in {"pend", "end"} \/ Ev[3] = Res.v)
TNext == /\ l > 0 /\ l <= Len(Traces[t].hist) /\ UNCHANGED <<t, hist>>
         /\ IF Matches
            THEN /\ (IF Ev[1] = "read" THEN Read ELSE Push)
                 /\ l' = l + 1
                 /\ (l = Len(Traces[t].hist) => PrintT(<<"DONE", t>>))
            ELSE /\ PrintT(<<"REJECT", t, l, Res.r, Res.v>>) /\ l' = 0 /\ UNCHANGED <<src, held, out, due, fresh>>
TSpec == TInit /\ [][TNext]_<<vars, t, l>>
=============================================================================

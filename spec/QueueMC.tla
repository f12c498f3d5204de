------------------------------ MODULE QueueMC ------------------------------
(* The queue model within bounds: invariants, liveness, and histories for the real runner. *)
EXTENDS Queue, Json, SequencesExt
CONSTANTS Inits,        \* the initial storages
          MaxErrs, MaxRefusals, MaxCrashes, MaxTicks,
          Patient,      \* TRUE: no claim is held by the runner for a whole grace period
          Effects,      \* whether failing storage operations may take effect
          N, EmitIt     \* length of histories to print
VARIABLE hist, st0
mvars == <<qvars, hist, st0>>

MInit == \E s \in Inits : QInit(s) /\ st0 = s /\ hist = <<>>

Results(a, m, c) ==
    CASE a \in {"list", "listend", "find", "findend"} -> {"ok"}
      [] a = "get" -> {"ok"} \cup (IF errs < MaxErrs THEN {"err"} ELSE {})
      [] a = "send" -> {"ok"} \cup (IF refusals < MaxRefusals THEN {"err"} ELSE {})
      [] OTHER -> {"ok"} \cup (IF errs < MaxErrs THEN {"err"} \cup (IF Effects THEN {"eff"} ELSE {}) ELSE
                               \* an operation on a claim that is no longer held cannot but fail
                               IF a \in {"done", "cancel", "recover"} /\ ~Holds(m, c) THEN {"err"} ELSE {})

(* steps, as the harness names them *)
Acts == {<<"list", m, 0>> : m \in todo}
        \cup (IF phase = "list" /\ todo = {} THEN {<<"listend", 0, 0>>} ELSE {})
        \cup {<<"find", x[1], x[2]>> : x \in tofind}
        \cup (IF phase = "find" /\ tofind = {} THEN {<<"findend", 0, 0>>} ELSE {})
        \cup {o \in ops : o[1] # "start"}
        \cup {<<"start", o[2], clm[o[2]] + 1>> : o \in {x \in ops : x[1] = "start"}}

Outs == SetToSeq(ops)
Note(e) == hist' = IF EmitIt THEN Append(hist, e) ELSE hist
Entry(a, m, c, r) == [a |-> a, m |-> m, c |-> c, r |-> r, outs |-> SetToSeq(ops'), effs |-> <<>>]

Held == {o \in ops : o[1] \in {"get", "send", "done", "cancel"}}
MayTick == /\ ticks < MaxTicks /\ timers # {}
           /\ Patient => \A o \in Held : age[o[2]] + 1 < Grace

Running == ~EmitIt \/ Len(hist) < N
Do(x, r) == Step(x[1], x[2], x[3], r) /\ Note(Entry(x[1], x[2], x[3], r))
MStep == Running /\ \E x \in Acts : \E r \in Results(x[1], x[2], x[3]) : Do(x, r)
MTick == Running /\ MayTick /\ Tick /\ Note(Entry("tick", 0, 0, "ok"))
MCrash == /\ Running /\ crashes < MaxCrashes
          /\ \E effs \in SUBSET ops :
               /\ Effects \/ effs = {}
               /\ Crash(effs)
               /\ Note([Entry("crash", 0, 0, "ok") EXCEPT !.effs = SetToSeq(effs)])
MNext == (MStep \/ MTick \/ MCrash) /\ UNCHANGED st0
MSpec == MInit /\ [][MNext]_mvars

------------------------------------------------------------------------------
TypeOK == /\ \A m \in Mails : st[m] \in {"queued", "inflight", "gone"}
          /\ phase \in {"list", "find", "run"}
(* C20 *)
NoLoss == \A m \in Mails : st[m] = "gone" => m \in taken
(* C21 *)
Deliveries(m) == {o \in Held : o[2] = m}
AtMostOne == \A m \in Mails : Cardinality(Deliveries(m)) <= 1
OnlyClaimed == \A o \in Held : Holds(o[2], o[3])
MarksMatch == \A o \in ops : /\ o[1] = "done" => <<o[2], o[3], TRUE>> \in outcome
                             /\ o[1] = "cancel" => <<o[2], o[3], FALSE>> \in outcome
SentOnce == \A o \in ops : o[1] \in {"get", "send"} => \A x \in outcome : <<x[1], x[2]>> # <<o[2], o[3]>>
OneAnswer == \A x, y \in outcome : x[1] = y[1] /\ x[2] = y[2] => x = y
OneTask == \A m \in Mails : Cardinality({o \in ops : o[2] = m /\ o[1] # "recover"}) <= 1
(* C23: what is put back by recovery was claimed at least a grace period ago *)
NotEarly == \A o \in ops : o[1] = "recover" /\ Holds(o[2], o[3]) => age[o[2]] >= Grace
TimersSane == \A t \in timers : t.left \in 1..Grace
(* C24: a step about one mail changes nothing about the others *)
About(m) == <<st[m], clm[m], {o \in ops : o[2] = m}, {t \in timers : t.m = m}, m \in todo, m \in taken>>
Isolated == [][crashes' = crashes /\ ticks' = ticks =>
                 \E m \in Mails : \A k \in Mails \ {m} : About(k)' = About(k)]_qvars
(* C22: without storage failures and with bounded refusals and crashes, all are delivered *)
FairSpec == MSpec /\ WF_mvars(MStep /\ UNCHANGED st0) /\ WF_mvars(MTick /\ UNCHANGED st0)
Delivered == <>[](\A m \in Mails : st[m] = "gone")
(* ... with storage failures: whoever is not affected by one is delivered; here, one failure *)
SomeFail == <>[](Cardinality({m \in Mails : st[m] # "gone"}) <= MaxErrs)

(* nothing left to do *)
Final == ~ENABLED MNext
Emit == EmitIt /\ (Len(hist) = N \/ (Acts = {} /\ timers = {})) => PrintT(<<"HIST", ToJson([st |-> st0, hist |-> hist])>>)
=============================================================================

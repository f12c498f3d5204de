------------------------------- MODULE Queue -------------------------------
(* The queue runner, its storage and its transport.

   Storage: st[m] is where mail m is; clm[m] numbers its claims (moves to in-flight), so that
   <<m, clm[m]>> identifies the claim while st[m] = "inflight".
   Runner: ops is the set of storage and transport operations it has under way, each
   <<kind, m, c>>: start (claim a queued mail), get (read a claimed mail), send (give it to the
   transport), done, cancel (settle), recover (put back a mail found in flight); timers the
   grace periods running, [m, c, left] with left in ticks of half an hour.
   Environment: which operation finishes next and how, when time passes, crashes.
   An operation of the storage that fails may have taken effect or not (eff).            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES st, clm, ops, timers, todo, tofind, phase,
          age,        \* ticks since the mail was claimed, at most 2
          taken,      \* mails for which the transport has reported success
          outcome,    \* <<m, c, ok>>: what the transport said about each claim
          errs, refusals, crashes, ticks   \* how many of each so far
qvars == <<st, clm, ops, timers, todo, tofind, phase, age, taken, outcome, errs, refusals, crashes, ticks>>
counts == <<errs, refusals, crashes, ticks>>

Grace == 2

QInit(s) ==
    /\ st = s /\ clm = [m \in DOMAIN s |-> IF s[m] = "inflight" THEN 1 ELSE 0]
    /\ ops = {} /\ timers = {} /\ phase = "list"
    /\ todo = {m \in DOMAIN s : s[m] = "queued"} /\ tofind = {}
    /\ age = [m \in DOMAIN s |-> 2]
    /\ taken = {} /\ outcome = {}
    /\ errs = 0 /\ refusals = 0 /\ crashes = 0 /\ ticks = 0

Mails == DOMAIN st

------------------------------------------------------------------------------
(* The runner reads the queue, then what is in flight. *)
List(m) == /\ phase = "list" /\ m \in todo
           /\ todo' = todo \ {m} /\ ops' = ops \cup {<<"start", m, 0>>}
           /\ UNCHANGED <<st, clm, timers, tofind, phase, age, taken, outcome, counts>>
ListEnd == /\ phase = "list" /\ todo = {}
           /\ phase' = "find"
           /\ tofind' = {<<m, clm[m]>> : m \in {x \in Mails : st[x] = "inflight"}}
           /\ UNCHANGED <<st, clm, ops, timers, todo, age, taken, outcome, counts>>
Find(m, c) == /\ phase = "find" /\ <<m, c>> \in tofind
              /\ tofind' = tofind \ {<<m, c>>}
              /\ timers' = timers \cup {[m |-> m, c |-> c, left |-> Grace]}
              /\ UNCHANGED <<st, clm, ops, todo, phase, age, taken, outcome, counts>>
FindEnd == /\ phase = "find" /\ tofind = {} /\ phase' = "run"
           /\ UNCHANGED <<st, clm, ops, timers, todo, tofind, age, taken, outcome, counts>>

(* Half an hour passes. *)
Tick == /\ timers' = {[t EXCEPT !.left = t.left - 1] : t \in {x \in timers : x.left > 1}}
        /\ ops' = ops \cup {<<"recover", t.m, t.c>> : t \in {x \in timers : x.left = 1}}
        /\ age' = [m \in Mails |-> IF age[m] < 2 THEN age[m] + 1 ELSE 2]
        /\ ticks' = ticks + 1
        /\ UNCHANGED <<st, clm, todo, tofind, phase, taken, outcome, errs, refusals, crashes>>

------------------------------------------------------------------------------
(* Operations finish. *)
Replace(o, new) == ops' = (ops \ {o}) \cup new
Holds(m, c) == st[m] = "inflight" /\ clm[m] = c

Claim(m) == /\ st' = [st EXCEPT ![m] = "inflight"] /\ clm' = [clm EXCEPT ![m] = @ + 1]
            /\ age' = [age EXCEPT ![m] = 0]
Store(m, w) == st' = [st EXCEPT ![m] = w] /\ UNCHANGED <<clm, age>>

StartOk(m) == LET o == <<"start", m, 0>> IN
    /\ o \in ops /\ st[m] = "queued" /\ Claim(m)
    /\ Replace(o, {<<"get", m, clm[m] + 1>>})
    /\ UNCHANGED <<timers, todo, tofind, phase, taken, outcome, counts>>
StartErr(m, eff) == LET o == <<"start", m, 0>> IN
    /\ o \in ops /\ Replace(o, {}) /\ errs' = errs + 1
    /\ IF eff THEN st[m] = "queued" /\ Claim(m) ELSE UNCHANGED <<st, clm, age>>
    /\ UNCHANGED <<timers, todo, tofind, phase, taken, outcome, refusals, crashes, ticks>>

GetOk(m, c) == LET o == <<"get", m, c>> IN
    /\ o \in ops /\ Replace(o, {<<"send", m, c>>})
    /\ UNCHANGED <<st, clm, timers, todo, tofind, phase, age, taken, outcome, counts>>
GetErr(m, c) == LET o == <<"get", m, c>> IN
    /\ o \in ops /\ Replace(o, {}) /\ errs' = errs + 1
    /\ UNCHANGED <<st, clm, timers, todo, tofind, phase, age, taken, outcome, refusals, crashes, ticks>>

SendOk(m, c) == LET o == <<"send", m, c>> IN
    /\ o \in ops /\ Replace(o, {<<"done", m, c>>})
    /\ taken' = taken \cup {m} /\ outcome' = outcome \cup {<<m, c, TRUE>>}
    /\ UNCHANGED <<st, clm, timers, todo, tofind, phase, age, counts>>
SendErr(m, c) == LET o == <<"send", m, c>> IN
    /\ o \in ops /\ Replace(o, {<<"cancel", m, c>>}) /\ refusals' = refusals + 1
    /\ outcome' = outcome \cup {<<m, c, FALSE>>}
    /\ UNCHANGED <<st, clm, timers, todo, tofind, phase, age, taken, errs, crashes, ticks>>

DoneOk(m, c) == LET o == <<"done", m, c>> IN
    /\ o \in ops /\ Holds(m, c) /\ Store(m, "gone") /\ Replace(o, {})
    /\ UNCHANGED <<timers, todo, tofind, phase, taken, outcome, counts>>
DoneErr(m, c, eff) == LET o == <<"done", m, c>> IN
    /\ o \in ops /\ Replace(o, {}) /\ errs' = errs + 1
    /\ IF eff THEN Holds(m, c) /\ Store(m, "gone") ELSE UNCHANGED <<st, clm, age>>
    /\ UNCHANGED <<timers, todo, tofind, phase, taken, outcome, refusals, crashes, ticks>>

BackOk(k, m, c) == LET o == <<k, m, c>> IN       \* k: cancel or recover
    /\ o \in ops /\ Holds(m, c) /\ Store(m, "queued")
    /\ Replace(o, {<<"start", m, 0>>})
    /\ UNCHANGED <<timers, todo, tofind, phase, taken, outcome, counts>>
BackErr(k, m, c, eff) == LET o == <<k, m, c>> IN
    /\ o \in ops /\ Replace(o, {}) /\ errs' = errs + 1
    /\ IF eff THEN Holds(m, c) /\ Store(m, "queued") ELSE UNCHANGED <<st, clm, age>>
    /\ UNCHANGED <<timers, todo, tofind, phase, taken, outcome, refusals, crashes, ticks>>

------------------------------------------------------------------------------
(* The runner dies and is started again; of the operations under way, those in effs take
   effect all the same. *)
CanTake(o) == CASE o[1] = "start" -> st[o[2]] = "queued"
                [] o[1] \in {"done", "cancel", "recover"} -> Holds(o[2], o[3])
                [] OTHER -> FALSE
OneEach(effs) == \A a, b \in effs : a[2] = b[2] => a = b
After(effs, m) == IF \E o \in effs : o[2] = m
                  THEN LET o == CHOOSE o \in effs : o[2] = m
                       IN CASE o[1] = "start" -> "inflight" [] o[1] = "done" -> "gone" [] OTHER -> "queued"
                  ELSE st[m]
Crash(effs) ==
    /\ effs \subseteq {o \in ops : CanTake(o)} /\ OneEach(effs)
    /\ st' = [m \in Mails |-> After(effs, m)]
    /\ clm' = [m \in Mails |-> IF <<"start", m, 0>> \in effs THEN clm[m] + 1 ELSE clm[m]]
    /\ age' = [m \in Mails |-> IF <<"start", m, 0>> \in effs THEN 0 ELSE age[m]]
    /\ ops' = {} /\ timers' = {} /\ tofind' = {} /\ phase' = "list"
    /\ todo' = {m \in Mails : st'[m] = "queued"}
    /\ crashes' = crashes + 1
    /\ UNCHANGED <<taken, outcome, errs, refusals, ticks>>

(* every step but ticks and crashes, as [a, m, c, r] *)
Step(a, m, c, r) ==
    CASE a = "list" -> List(m)
      [] a = "listend" -> ListEnd
      [] a = "find" -> Find(m, c)
      [] a = "findend" -> FindEnd
      [] a = "start" -> CASE r = "ok" -> StartOk(m) /\ c = clm[m] + 1 [] OTHER -> StartErr(m, r = "eff")
      [] a = "get" -> IF r = "ok" THEN GetOk(m, c) ELSE GetErr(m, c)
      [] a = "send" -> IF r = "ok" THEN SendOk(m, c) ELSE SendErr(m, c)
      [] a = "done" -> CASE r = "ok" -> DoneOk(m, c) [] OTHER -> DoneErr(m, c, r = "eff")
      [] OTHER -> CASE r = "ok" -> BackOk(a, m, c) [] OTHER -> BackErr(a, m, c, r = "eff")
=============================================================================

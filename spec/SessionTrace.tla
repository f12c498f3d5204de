---------------------------- MODULE SessionTrace ----------------------------
(* Checks recorded sessions against Session: trace t is accepted if DONE t is printed; the
   event at which a trace leaves the specification is printed with the reason. *)
EXTENDS Session, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
TraceCfg(i) == Traces[i].cfg
VARIABLES t, l      \* trace, next event; l = 0 once the trace has left the specification

TInit == \E i \in 1..Len(Traces) : t = i /\ l = 1 /\ SessionInit(i)

Ev == Traces[t].ev[l]

Why(e) ==
    CASE ended # "" -> "goes-on-after-end"
      [] e.e = "rx" -> WhyRx
      [] e.e = "pend" -> WhyPend
      [] e.e = "eof" -> WhyEof
      [] e.e = "again" -> IF dead THEN "read-after-error" ELSE "read-again"
      [] e.e = "out" -> WhyOut(e.b)
      [] e.e = "flush" -> WhyFlush
      [] e.e = "outerr" -> IF dead THEN "send-after-error" ELSE ""
      [] e.e = "new" -> WhyNew
      [] e.e = "from" -> WhyFrom(Norm(e.a), e.u)
      [] e.e = "to" -> WhyTo(Norm(e.a), Norm(e.mf), Norms(e.mt), e.u)
      [] e.e = "data" -> WhyData(Norm(e.mf), Norms(e.mt), e.u)
      [] e.e = "hm" -> WhyMail(Norm(e.mf), Norms(e.mt), e.u)
      [] e.e = "body" -> WhyBody(e.b)
      [] e.e = "none" -> WhyNone
      [] e.e = "more" -> WhyMore
      [] e.e = "bend" -> WhyBodyEnd(e.ok)
      [] e.e = "hmend" -> WhyMailEnd
      [] e.e = "quit" -> WhyMailQuit
      [] e.e = "panic" -> WhyPanic
      [] e.e = "end" -> WhyEnd(e.r)
      [] OTHER -> e.e      \* stuck, hang, crash: never allowed

Do(e) ==
    CASE e.e = "rx" -> Rx(e.b)
      [] e.e = "pend" -> Pend
      [] e.e = "eof" -> Eof
      [] e.e = "out" -> Out(e.b)
      [] e.e = "flush" -> Flush
      [] e.e = "outerr" -> OutError
      [] e.e = "new" -> New
      [] e.e = "from" -> From(Norm(e.a), Norm(e.a2), e.d, e.u)
      [] e.e = "to" -> To(Norm(e.a), Norm(e.a2), Norm(e.mf), Norms(e.mt), Norm(e.mf2), Norms(e.mt2), e.d, e.u)
      [] e.e = "data" -> Data(Norm(e.mf), Norms(e.mt), Norm(e.mf2), Norms(e.mt2), e.d, e.u)
      [] e.e = "hm" -> HandleMail(Norm(e.mf), Norms(e.mt), e.u)
      [] e.e = "body" -> Body(e.b)
      [] e.e = "none" -> None
      [] e.e = "more" -> More
      [] e.e = "bend" -> BodyEnd(e.ok)
      [] e.e = "hmend" -> MailEnd(e.d)
      [] e.e = "quit" -> MailQuit
      [] e.e = "panic" -> Panic
      [] e.e = "end" -> End(e.r)

(* more taken or held than needed: noted, and the trace goes on *)
Soft(e) == CASE e.e \in {"rx", "eof"} -> WhyEager
             [] e.e = "pend" -> WhyHold
             [] OTHER -> ""

TNext ==
    /\ l > 0 /\ l <= Len(Traces[t].ev)
    /\ IF CanTake THEN TakeLine /\ UNCHANGED <<t, l>>
       ELSE LET w == Why(Ev)
            IN IF w = ""
               THEN /\ LET s == Soft(Ev) IN IF s = "" THEN TRUE ELSE PrintT(<<"SOFT", t, l, s, pc, eof, fin, cause>>)
                    /\ Do(Ev) /\ l' = l + 1 /\ UNCHANGED t
                    /\ IF l < Len(Traces[t].ev) THEN TRUE
                       ELSE IF ended' # "" THEN PrintT(<<"DONE", t>>)
                       ELSE PrintT(<<"REJECT", t, l, "no-end", pc, eof, fin, cause>>)
               ELSE /\ PrintT(<<"REJECT", t, l, w, pc, eof, fin, cause>>)
                    /\ l' = 0 /\ UNCHANGED <<t, svars>>

TSpec == TInit /\ [][TNext]_<<svars, t, l>>
=============================================================================

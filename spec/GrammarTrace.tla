---------------------------- MODULE GrammarTrace ----------------------------
(* Judges what the real parsers returned.  A record: t kind of parser ("c" command line,
   "e" address), in the bytes given, r the result; for accepted input also w, what writing
   the result out gave, r2 the result of parsing that, w2 that written again, eq whether the
   library itself finds the value read back equal.
   A result: k ("err", "panic" or the kind), nul, lo (local part as written), can (canonical
   local part), hk, h, ps (<<key, value>> with value <<>> if none), s.                     *)
EXTENDS Grammar, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE i

GotParams(r) == {<<r.ps[j][1], r.ps[j][2]>> : j \in 1..Len(r.ps)}
SameAddr(a, b) == a.nul = b.nul /\ a.lo = b.lo /\ a.hk = b.hk /\ a.h = b.h

Expect(x) ==
    IF x.t = "c" THEN Parse(x.in)
    ELSE LET b == Mailbox(x.in)
         IN IF b.e = 0 THEN Err ELSE [Err EXCEPT !.k = "email", !.lo = b.lo, !.hk = b.hk, !.h = b.h]
MayReject(x) == x.t = "c" /\ Lenient(x.in)

(* the same by the grammar: what the bytes w mean is what r says *)
SaysTheSame(x, w, r) ==
    LET e == Expect([x EXCEPT !.in = w])
    IN /\ r.k = e.k /\ r.s = e.s /\ SameAddr(r, e)
       /\ (x.t = "c" => ParamsMatch(e.ps, GotParams(r)) /\ Cardinality(GotParams(r)) = Len(r.ps))

Reading(x) ==
    LET e == Expect(x)   r == x.r
    IN CASE r.k = "panic" -> "panic"
         [] r.k = "err" /\ e.k = "err" -> ""
         [] r.k = "err" -> IF MayReject(x) THEN "" ELSE "rejected"
         [] e.k = "err" -> "accepted"
         [] r.k # e.k -> "verb"
         [] r.s # e.s -> "text"
         [] r.hk # e.hk \/ r.h # e.h -> "host"
         [] r.nul # e.nul \/ r.lo # e.lo -> "mailbox"
         [] ~ParamsMatch(e.ps, GotParams(r)) \/ Cardinality(GotParams(r)) # Len(r.ps) -> "params"
         [] r.lo # <<>> /\ r.can # Canonical(r.lo) -> "canonical"
         [] OTHER -> ""

Same(a, b) == a.k = b.k /\ a.s = b.s /\ SameAddr(a, b) /\ GotParams(a) = GotParams(b)
                /\ Len(a.ps) = Len(b.ps)
OneLine(w) == Len(w) >= 2 /\ FindCrlf(w, 1) = Len(w) - 1

Writing(x) ==
    IF x.r.k \in {"err", "panic"} THEN ""
    ELSE CASE x.t = "c" /\ ~OneLine(x.w) -> "written-not-one-line"
           [] x.r2.k = "panic" -> "panic"
           [] ~SaysTheSame(x, x.w, x.r) -> "written-means-something-else"
           [] ~Same(x.r, x.r2) \/ ~x.eq -> "read-back-differs"
           [] x.t = "c" /\ ~OneLine(x.w2) -> "written-again-not-one-line"
           [] x.w2 # x.w /\ ~SaysTheSame(x, x.w2, x.r) -> "written-again-means-something-else"
           [] ~Same(x.r, x.r3) -> "read-back-again-differs"
           [] OTHER -> ""

(* t "b": a command built from parts (v, nul, lo, host, ps, s).  r: what it says it is; w what
   it is written as, which must mean the parts, both by the grammar and by the parser. *)
Built(x) ==
    LET h == IF x.host = <<>> THEN NoHost ELSE Host(x.host, 1)
    IN [k |-> x.v, nul |-> x.nul, lo |-> x.lo, hk |-> h.hk, h |-> h.h, ps |-> x.ps, s |-> x.s]
Means(x, r) == LET e == Built(x)
               IN r.k = e.k /\ r.s = e.s /\ SameAddr(r, e) /\ Len(r.ps) = Len(e.ps) /\ GotParams(r) = GotParams(e)
Building(x) ==
    CASE x.r.k = "panic" -> "panic"
      [] ~Means(x, x.r) -> "holds-something-else"
      [] ~OneLine(x.w) -> "written-not-one-line"
      [] ~Means(x, Parse(x.w)) -> "written-means-something-else"
      [] ~Means(x, x.r2) -> "read-back-differs"
      [] ~x.eq -> "read-back-not-equal"
      [] ~Means(x, Parse(x.w2)) \/ ~OneLine(x.w2) -> "written-again-differs"
      [] OTHER -> ""

Init == /\ i \in 1..Len(Recs)
        /\ LET a == IF Recs[i].t = "b" THEN "" ELSE Reading(Recs[i])
               b == IF Recs[i].t = "b" THEN Building(Recs[i]) ELSE Writing(Recs[i])
           IN (a = "" \/ PrintT(<<"BAD", i, "r", a>>)) /\ (b = "" \/ PrintT(<<"BAD", i, "w", b>>))
Next == FALSE /\ UNCHANGED i
=============================================================================

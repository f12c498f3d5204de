----------------------------- MODULE GrammarMC -----------------------------
(* The grammar itself, over all strings of tokens up to a length: what the properties claim
   about reading and writing command lines holds of the specification. *)
EXTENDS Grammar, Ascii
CONSTANTS Pre, Toks, N
VARIABLES s, n

Ended == CRLF
MCInit == s \in {p : p \in Pre} /\ n = 0
MCNext == n < N /\ \E t \in Toks : s' = s \o t /\ n' = n + 1
MCSpec == MCInit /\ [][MCNext]_<<s, n>>

line == s \o Ended
R == Parse(line)

HostText(hk, h) == IF hk = "host" THEN h ELSE <<>>
(* writing a result out, for the results whose host is a name or absent *)
Upper(kind) == CASE kind = "data" -> V_DATA [] kind = "quit" -> V_QUIT [] kind = "rset" -> V_RSET
                 [] kind = "ehlo" -> V_EHLO [] kind = "helo" -> V_HELO [] kind = "help" -> V_HELP
                 [] kind = "noop" -> V_NOOP [] kind = "expn" -> V_EXPN [] kind = "vrfy" -> V_VRFY
                 [] kind = "mail" -> V_MAIL [] kind = "rcpt" -> V_RCPT
RECURSIVE WriteParams(_)
WriteParams(ps) == IF ps = <<>> THEN <<>>
                   ELSE <<SP>> \o ps[1][1] \o (IF ps[1][2] = <<>> THEN <<>> ELSE <<EQU>> \o ps[1][2]) \o WriteParams(Tail(ps))
WriteBox(r) == r.lo \o (IF r.hk = "none" THEN <<>> ELSE <<AT>> \o r.h)
Write(r) ==
    Upper(r.k) \o
    (CASE r.k \in {"data", "quit", "rset"} -> <<>>
       [] r.k \in {"ehlo", "helo"} -> <<SP>> \o r.h
       [] r.k \in {"help", "noop", "expn", "vrfy"} -> <<SP>> \o r.s
       [] OTHER -> <<LT>> \o WriteBox(r) \o <<GT>> \o WriteParams(r.ps)) \o CRLF

Writable == R.k # "err" /\ R.hk \in {"none", "host"}
Verb == {"data", "ehlo", "expn", "helo", "help", "mail", "noop", "quit", "rcpt", "rset", "vrfy"}

(* the verb decides *)
VerbDecides == R.k \in Verb => \/ TagNoCase(line, 1, Upper(R.k))
                               \/ R.k \in {"ehlo", "helo"} /\ TagNoCase(line, RunEnd(line, 1, Blank), Upper(R.k))
(* nothing is accepted past the first CRLF except inside a quoted string (which has none) *)
OneLineOnly == R.k # "err" => FindCrlf(line, 1) = Len(line) - 1
RoundTrip == Writable => LET w == Write(R) IN FindCrlf(w, 1) = Len(w) - 1 /\ Parse(w) = R /\ Write(Parse(w)) = w
(* letter case of the verb never matters *)
Flip(l) == [k \in 1..Len(l) |-> IF k <= 4 THEN Lower(l[k]) ELSE l[k]]
CaseBlind == Parse(Flip(line)) = R \/ line[1] \in Blank
(* a mailbox is part of the line as written, and never empty *)
Extract == R.k \in {"mail", "rcpt"} /\ ~R.nul =>
              /\ R.lo # <<>>
              /\ \E p \in 1..Len(line) : TagAt(line, p, WriteBox(R)) \/ R.hk \notin {"none", "host"}
OnlySenderEmpty == R.nul => R.k = "mail"
(* parameters: every keyword and value is in the line; without params none of the bytes after
   the path is lost *)
ParamsThere == \A j \in 1..Len(R.ps) : \E p \in 1..Len(line) :
                  TagAt(line, p, R.ps[j][1] \o (IF R.ps[j][2] = <<>> THEN <<>> ELSE <<EQU>> \o R.ps[j][2]))
CanonicalShorter == R.lo # <<>> => Len(Canonical(R.lo)) <= Len(R.lo) /\ (R.lo[1] # DQUOTE => Canonical(R.lo) = R.lo)
LenientAccepted == Len(line) > 4 /\ R.k # "err" /\ Lenient(line) => R.k \notin {"data", "quit", "rset"}
=============================================================================

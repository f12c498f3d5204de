----------------------------- MODULE SessionMC -----------------------------
(* Bounded model of a session: a client that sends items of a small alphabet, a
   configuration that takes each of a few decisions, and a server that does what Session
   says.  With Pipelined the client sends whenever it likes, otherwise only when the server
   has nothing left to do (the histories are then one per input and decisions).
   hist is the history as seen from outside; the properties are stated over it, without
   reference to the server's state.  With Emit every complete history is printed, to be
   replayed against the implementation.                                                  *)
EXTENDS Session, Ascii, Json, TLC

CONSTANTS Script,      \* sequence of sets of items: what may be sent as the i-th item
          Bodies,      \* what may be sent instead while the handler reads
          FromDecs, ToDecs, DataDecs, MailDecs,    \* decisions, see Decision
          Pipelined, Emit, Which

VARIABLES sent,        \* everything the client has sent (some may not have been received)
          n,           \* number of items sent
          closed,      \* the client has closed its side
          hist,        \* events seen from outside
          decs         \* decisions taken, in order

mvars == <<svars, sent, n, closed, hist, decs>>

(* A decision: [set, ef, add, pop, d]: address to put in place (<<>> for none), envelope
   sender to put in place, recipient to add, whether to drop the last one, the outcome.   *)
Plain0 == [set |-> <<>>, ef |-> <<>>, add |-> <<>>, pop |-> FALSE, d |-> <<>>, q |-> ""]
Accept == Plain0
Refuse(c, t) == [Plain0 EXCEPT !.d = <<c, B(t)>>]
Rewrite(a) == [Plain0 EXCEPT !.set = B(a)]
RefuseRewrite(a) == [Plain0 EXCEPT !.set = B(a), !.d = <<553, B("moved")>>]
Edit(f, a) == [Plain0 EXCEPT !.ef = B(f), !.add = B(a)]
(* refused, with the envelope changed on the way *)
RefuseEdit(f, a) == [Plain0 EXCEPT !.ef = B(f), !.add = B(a), !.d = <<452, B("full")>>]
(* the handler gives up: q<k>/x<k> having read k chunks, without/with asking for completion,
   e having read the body to its end, without asking *)
Quits(k) == [Plain0 EXCEPT !.q = k]
Pop == [Plain0 EXCEPT !.pop = TRUE]

(* "-" stands for the null sender *)
AddrOf(t) == IF t = B("-") THEN NullBox ELSE Norm(t)
NewAddr(a, x) == IF x.set = <<>> THEN a ELSE AddrOf(x.set)
NewFrom(f, x) == IF x.ef = <<>> THEN f ELSE AddrOf(x.ef)
(* filters never leave an envelope without recipients *)
NewTo(t, x) ==
    LET t1 == IF x.pop /\ Len(t) > 1 THEN Take(t, Len(t) - 1) ELSE t
    IN IF x.add = <<>> THEN t1 ELSE Append(t1, Norm(x.add))

(* histories keep consecutive output and consecutive body joined *)
Note(e) == hist' = Append(hist, e)
Join(k, b) ==
    IF hist # <<>> /\ hist[Len(hist)].e = k
    THEN hist' = [hist EXCEPT ![Len(hist)].b = @ \o b]
    ELSE Note([e |-> k, b |-> b])

MInit == /\ SessionInit(1) /\ sent = <<>> /\ n = 0 /\ closed = FALSE /\ hist = <<>> /\ decs = <<>>

Busy == \/ exp # {} \/ CanTake \/ pc \in {"new", "from", "to", "data", "hm", "told", "dec"}
        \/ pc = "body" /\ (dec # <<>> \/ fin \/ eof)

Items == IF pc = "body" /\ ~fin THEN Bodies ELSE Script[n + 1]
Send ==
    /\ ~eof /\ n < Len(Script) /\ (Pipelined \/ ~Busy)
    /\ \E b \in Items : Rx(b) /\ sent' = sent \o b
    /\ n' = n + 1
    /\ UNCHANGED <<closed, hist, decs>>
Close ==
    /\ ~closed /\ (Pipelined \/ ~Busy)
    /\ Eof /\ closed' = TRUE
    /\ UNCHANGED <<sent, n, hist, decs>>

Choose(x) == decs' = Append(decs, x) /\ UNCHANGED <<sent, n, closed>>
Quietly == UNCHANGED <<sent, n, closed, decs>>

Serve ==
    \/ CanTake /\ TakeLine /\ Quietly /\ UNCHANGED hist
    \/ \E r \in exp : LET b == EncodeReply(r[1], r[2]) IN Out(b) /\ Join("out", b) /\ Quietly
    \/ unfl /\ exp = {} /\ Flush /\ Quietly /\ UNCHANGED hist
    \/ New /\ Note([e |-> "new"]) /\ Quietly
    \/ pc = "from" /\ \E x \in FromDecs :
          LET a == BoxOf(cur) a2 == NewAddr(a, x)
          IN From(a, a2, x.d, u) /\ Choose(x)
             /\ Note([e |-> "from", a |-> a, a2 |-> a2, d |-> x.d, u |-> u])
    \/ pc = "to" /\ \E x \in ToDecs :
          LET a == BoxOf(cur) a2 == NewAddr(a, x) f == txn[1].f t == txn[1].t
              f2 == NewFrom(f, x) t2 == NewTo(t, x)
          IN To(a, a2, f, t, f2, t2, x.d, u) /\ Choose(x)
             /\ Note([e |-> "to", a |-> a, mf |-> f, mt |-> t, a2 |-> a2, mf2 |-> f2, mt2 |-> t2,
                      d |-> x.d, u |-> u])
    \/ pc = "data" /\ \E x \in DataDecs :
          LET f == txn[1].f t == txn[1].t f2 == NewFrom(f, x) t2 == NewTo(t, x)
          IN Data(f, t, f2, t2, x.d, u) /\ Choose(x)
             /\ Note([e |-> "data", mf |-> f, mt |-> t, mf2 |-> f2, mt2 |-> t2, d |-> x.d, u |-> u])
    \/ pc = "hm" /\ exp = {} /\
          LET f == txn[1].f t == txn[1].t
          IN HandleMail(f, t, u) /\ Note([e |-> "hm", mf |-> f, mt |-> t, u |-> u]) /\ Quietly
    \/ pc = "body" /\ dec # <<>> /\ Body(dec) /\ Join("body", dec) /\ Quietly
    \/ pc = "body" /\ dec = <<>> /\ None /\ Quietly /\ UNCHANGED hist
    \/ pc = "told" /\ BodyEnd(fin)
          /\ Note([e |-> "bend", ok |-> fin]) /\ Quietly
    \/ pc \in {"body", "told"} /\ \E x \in MailDecs :
          /\ CASE x.q = "e" -> pc = "told"
               [] pc = "told" -> FALSE
               [] x.q \in {"q0", "x0"} -> hist[Len(hist)].e = "hm"
               [] x.q \in {"q1", "x1"} -> hist[Len(hist)].e = "body"
               [] OTHER -> FALSE
          /\ MailQuit /\ Note([e |-> "quit"]) /\ Choose(x)
    \/ pc = "void" /\ cur.k # "quit" /\ LET b == EncodeReply(451, B("gave up")) IN Out(b) /\ Join("out", b) /\ Quietly
    \/ pc = "dec" /\ \E x \in {y \in MailDecs : y.q = ""} : MailEnd(x.d) /\ Note([e |-> "hmend", d |-> x.d]) /\ Choose(x)

Finish ==
    /\ ended = "" /\ Quietly
    /\ \/ End("ok") /\ Note([e |-> "end", r |-> "ok"])
       \/ Panic /\ Note([e |-> "panic"])
    /\ IF Emit THEN PrintT(<<"HIST", ToJson([sent |-> sent, decs |-> decs, hist |-> hist'])>>) ELSE TRUE

MNext == Send \/ Close \/ Serve \/ Finish
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Serve \/ Finish \/ Close)

------------------------------------------------------------------------------
(* The properties, over the history and what the client sent. *)

Idx(k) == {i \in 1..Len(hist) : hist[i].e = k}
Last(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Accepted(i) == IsAccept(hist[i].d)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET i == Least(S) IN <<i>> \o Sorted(S \ {i})
MapOver(S, F(_)) == LET s == Sorted(S) IN [i \in 1..Len(s) |-> F(s[i])]

(* the accepted sender command a position belongs to: none if a message was handed over since *)
Opened(i) == LET f == Last({j \in Idx("from") : j < i /\ Accepted(j)})
             IN IF f # 0 /\ (\E j \in Idx("hm") : f < j /\ j < i) THEN 0 ELSE f
NoEdits == \A j \in 1..Len(decs) : decs[j].ef = <<>> /\ decs[j].add = <<>> /\ ~decs[j].pop

(* C01 *)
Envelope ==
    \A i \in Idx("hm") :
        LET f == Opened(i)
            tos == {j \in Idx("to") : f < j /\ j < i /\ Accepted(j)}
            a2(j) == hist[j].a2
        IN /\ f # 0 /\ (NoEdits => tos # {})
           /\ cfg.silent \/ (hist[i-1].e = "out" /\ hist[i-2].e = "data" /\ Accepted(i-2))
           /\ NoEdits => hist[i].mf = hist[f].a2 /\ hist[i].mt = MapOver(tos, a2)
(* C03 *)
LegalOrder ==
    /\ \A i \in Idx("from") : Opened(i) = 0
    /\ \A i \in Idx("to") \cup Idx("data") : Opened(i) # 0
    /\ NoEdits => \A i \in Idx("data") : \E j \in Idx("to") : Opened(i) < j /\ j < i /\ Accepted(j)
(* C12 *)
Announced == \A i \in Idx("from") : cfg.silent \/ hist[i-1].e = "new"
Counted == LET S == {i \in 1..Len(hist) : hist[i].e \in {"from", "to", "data", "hm"}}
           IN \A i \in S : hist[i].u = Cardinality({j \in S : j < i})

(* What a client works out alone from the bytes it sent, cutting them itself: commands and
   bodies, given where data commands were accepted (the go-aheads it saw).              *)
AllOut == LET b(i) == hist[i].b IN Concat(MapOver(Idx("out"), b))
RECURSIVE Codes(_)
Codes(ls) == IF ls = <<>> THEN <<>>
             ELSE (IF ReplyLast(ls[1]) THEN <<ReplyCodeOf(ls[1])>> ELSE <<>>) \o Codes(Tail(ls))
ReplyCodes == Codes(ReplyLines(AllOut))

RECURSIVE View(_, _, _)
(* walks the sent bytes p.. with the codes of the replies seen so far; gives the number of
   replies owed for what is complete, and the bodies                                     *)
View(b, codes, a) ==
    LET p == FindCrlf(b, 1)
    IN IF p = 0 THEN a
       ELSE LET k == Parse(Take(b, p + 1)).k
                rest == Drop(b, p + 1)
                me == a.replies + 1
            IN IF k = "data" /\ Len(codes) >= me /\ codes[me] = cfg.dataok[1]
               THEN LET d == Decode(rest, 1, [st |-> "S", out |-> <<>>, n |-> 0])
                    IN IF d.st = "F"
                       THEN View(Drop(rest, d.n), codes,
                                 [replies |-> me + 1, bodies |-> Append(a.bodies, <<d.out, TRUE>>),
                                  lines |-> Append(a.lines, Take(b, p + 1))])
                       ELSE [replies |-> IF closed THEN me + 1 ELSE me,
                             bodies |-> Append(a.bodies, <<d.out, FALSE>>),
                             lines |-> Append(a.lines, Take(b, p + 1))]
               ELSE View(rest, codes, [replies |-> me, bodies |-> a.bodies,
                                       lines |-> Append(a.lines, Take(b, p + 1))])
ClientView == View(sent, ReplyCodes, [replies |-> 1, bodies |-> <<>>, lines |-> <<>>])

(* C02: never a reply too many, and none missing at the end *)
OneReplyEach == Len(ReplyCodes) <= ClientView.replies + (IF pc = "void" THEN 1 ELSE 0)
AllAnswered == (ended # "" /\ Idx("quit") = {}) => Len(ReplyCodes) = ClientView.replies
(* C05, C06: the bodies handed over are those the client meant *)
HandedBodies ==
    LET ends == Idx("bend")
        body(i) == <<IF hist[i-1].e = "body" THEN hist[i-1].b ELSE <<>>, hist[i].ok>>
    IN MapOver(ends, body)
BodiesMatch ==
    (ended # "" /\ Idx("quit") = {}) => LET v == ClientView.bodies h == HandedBodies
                  IN /\ Len(v) = Len(h)
                     /\ \A i \in 1..Len(v) : v[i][2] = h[i][2] /\ v[i][1] = h[i][1]
(* C10 *)
EndsProperly == (ended # "" /\ Idx("quit") = {}) => ended = "ok" /\ FindCrlf(rx, 1) = 0
(* C26: every call comes from a command the client sent outside of its message bodies, and at
   most one; nothing is called between a message given up and its end marker *)
NoSmuggling ==
    LET ls == ClientView.lines
        said(k, a) == Cardinality({i \in 1..Len(ls) : Parse(ls[i]).k = k /\ BoxOf(Parse(ls[i])) = a})
        called(e, a) == Cardinality({i \in Idx(e) : hist[i].a = a})
    IN /\ \A i \in Idx("from") : called("from", hist[i].a) <= said("mail", hist[i].a)
       /\ \A i \in Idx("to") : called("to", hist[i].a) <= said("rcpt", hist[i].a)
       /\ Cardinality(Idx("data")) <= Cardinality({i \in 1..Len(ls) : Parse(ls[i]).k = "data"})
(* C34: once a handler has been told that its body has ended, nothing is read and nothing is
   left to hand over until it has answered *)
EndIsFinal ==
    [][ (pc = "told" /\ pc' # "void") =>
            /\ pc' \in {"told", "dec"}
            /\ UNCHANGED <<rx, dec, eof, txn, exp, sent, n>> ]_mvars
(* C07: when the server can do nothing more by itself, all is flushed *)
FlushedWhenIdle == ~ENABLED Serve => ~unfl /\ exp = {}
(* C28: a server that takes input only when it can do nothing more by itself has, by the client's
   own count, answered all that was sent whenever it takes more, and given all of the body to the
   handler that cannot still turn out to be the end marker                                *)
BodyNow == LET h == Last(Idx("hm"))
               S == {i \in Idx("body") : i > h}
               b(i) == hist[i].b
           IN Concat(MapOver(S, b))
TakesWhenDone ==
    (~Pipelined /\ ~Busy /\ ended = "" /\ Idx("quit") = {} /\ ~closed) =>
        LET v == ClientView
        IN /\ Len(ReplyCodes) = v.replies
           /\ pc = "body" => v.bodies # <<>> /\ v.bodies[Len(v.bodies)] = <<BodyNow, FALSE>>
(* a stuck server: nothing to do, yet the input has ended *)
Progress == (eof /\ ~ENABLED Serve) => WhyEnd("ok") = "" \/ ended # ""
(* C11 as liveness: a client that has closed always sees the end *)
Ends == closed ~> (ended # "")

TypeOK == /\ pc \in {"idle", "new", "from", "to", "data", "hm", "body", "told", "dec", "void"}
          /\ Cardinality(exp) <= 1 /\ u \in Nat

------------------------------------------------------------------------------
(* Configurations and alphabets. *)
L(s) == B(s) \o CRLF
Long(c, k) == [i \in 1..k |-> IF (i - 1) % 97 = 96 THEN 32 ELSE c + ((i - 1) % 19)]
ModelCfgD ==
    [greet |-> <<220, B("mx.test Service ready")>>, mailok |-> <<250, B("Okay")>>,
     rcptok |-> <<250, B("Okay")>>,
     dataok |-> <<354, B("Start mail input; end with <CRLF>.<CRLF>")>>,
     accepted |-> <<250, B("Okay")>>,
     already |-> <<503, B("Bad sequence of commands")>>, rcptbm |-> <<503, B("Bad sequence of commands")>>,
     databr |-> <<503, B("Bad sequence of commands")>>, databm |-> <<503, B("Bad sequence of commands")>>,
     unimpl |-> <<502, B("Command not implemented")>>, unrec |-> <<500, B("Command not recognized")>>,
     silent |-> Which = "s"]
(* okay, bad_sequence and banner overridden: the replies that derive from them follow *)
ModelCfgM ==
    LET ok == <<251, <<>>>>   bad == <<533, B("not now")>>
    IN [ModelCfgD EXCEPT !.greet = <<220, B("mx.test hello there")>>,
          !.mailok = ok, !.rcptok = ok, !.accepted = ok,
          !.already = bad, !.rcptbm = bad, !.databr = bad, !.databm = bad]
(* every reply overridden *)
ModelCfgC ==
    [greet |-> <<299, B("w") \o <<9>> \o B("x")>>, mailok |-> <<201, B("sender")>>,
     rcptok |-> <<202, B("rcpt")>>, dataok |-> <<303, Long(65, 507)>>, accepted |-> <<4, B(" - ")>>,
     already |-> <<505, B("in mail")>>, rcptbm |-> <<506, B("rcpt too early")>>,
     databr |-> <<507, <<>>>>, databm |-> <<508, B("data too early")>>,
     unimpl |-> <<509, Long(97, 506)>>, unrec |-> <<510, B("what?")>>, silent |-> FALSE]
ModelCfgRec == CASE Which = "m" -> ModelCfgM [] Which = "c" -> ModelCfgC [] OTHER -> ModelCfgD
ModelCfg(i) == ModelCfgRec

Mail1 == L("MAIL FROM:<a@b.c>")     Mail2 == L("mail from:<@r,@s:\"x y\"@d> SIZE=1")
Mail0 == L("Mail From:<>")          MailBad == L("MAIL FROM:<a@>")
Rcpt1 == L("RCPT TO:<x@y.z>")       Rcpt2 == L("rcpt to: q")
DataL == L("DATA")                  Noop == L("NOOP")     Bad == L("BAD")   Quit == L("quit ")
Rset == L("RSET")

Core == {Mail1, Rcpt1, DataL, Noop, Bad}
Wide == {Mail1, Mail2, Mail0, MailBad, Rcpt1, Rcpt2, DataL, Rset, Bad}
Txn == {Mail2, Rcpt1, Rcpt2, DataL}
Odd == {L(""), L("DATA x"), L("MAIL FROM:<a@b> X="), L("RCPT TO:<>"), L("EHLO foo.bar"), L("HELP me"),
        L("EXPN a"), L("VRFY b"), L("HELO [127.0.0.1]"), <<0, 255>> \o CRLF, B("x") \o <<13>> \o CRLF,
        L("DATA") \o <<10>> \o CRLF}

Rep(S, k) == [i \in 1..k |-> S]
ScriptCore(k) == Rep(Core, k)
ScriptWide(k) == Rep(Wide, k)
ScriptTxn(k) == <<{Mail1, Mail0}>> \o Rep(Txn, k)
ScriptData(k) == <<{Mail1 \o Rcpt1 \o DataL}>> \o Rep({Rcpt2, DataL}, k)
ScriptMsg(k) == <<{Mail1 \o Rcpt1 \o DataL}>> \o Rep({Mail2, Rcpt2, DataL, Mail2 \o Rcpt2 \o DataL}, k)
ScriptOdd(k) == Rep(Odd \cup {Mail1, Rcpt1, DataL}, k)

BodiesCore == {B("hi") \o CRLF \o L("."), L("..") \o B(".x"), L(".") \o Noop}
BodiesData == {L("."), L("..") \o B("."), L("a") \o L(".b") \o L(".") \o Rcpt2, B(".") \o <<13>>,
               <<10>> \o B("."), CRLF, <<13>>, DataL}
BodiesEnd == {L("."), B("x") \o CRLF \o L(".") \o Mail2 \o Rcpt2}
AR == {Accept, Refuse(550, "no way")}
ARR == {Accept, Refuse(450, "later"), Rewrite("new@addr"), RefuseRewrite("no@addr")}
(* senders may be made null as well *)
FromAll == ARR \cup {Rewrite("-"), RefuseRewrite("-")}
FromFew == {Accept, Refuse(450, "later"), Rewrite("-")}
ToAll == {Accept, Refuse(550, "no"), Rewrite("rw@host"), RefuseRewrite("no@addr"), Edit("f@g", ""), Edit("-", "added@x"), Pop,
          RefuseEdit("f3@g3", "m3@x")}
DataAll == {Accept, Refuse(451, "wait"), Edit("f2@g2", "more@x"), Pop, RefuseEdit("f4@g4", "m4@x")}
ToFew == {Accept, RefuseRewrite("no@addr"), Edit("f@g", "added@x"), RefuseEdit("f3@g3", "m3@x")}
DataFew == {Accept, Edit("f2@g2", "more@x"), RefuseEdit("f4@g4", "m4@x")}
MailAll == {Accept, Refuse(554, "bad mail")}
MailQuits == {Accept, Quits("q0"), Quits("q1"), Quits("x0"), Quits("x1"), Quits("e")}
(* bodies that hold commands *)
Evil1 == L("MAIL FROM:<evil@x>")   Evil2 == L("RCPT TO:<evil@y>")
BodiesEvil == {Evil1 \o Evil2 \o DataL \o L("."), Evil1 \o CRLF \o L("..") \o Evil2, L(".") \o Mail1, L("x"), Evil1 \o Evil2}
ScriptEvil(k) == <<{Mail1 \o Rcpt1 \o DataL, Mail1 \o Rcpt1 \o DataL \o Evil1 \o L(".")}>> \o Rep({Mail2 \o Rcpt2 \o DataL, Mail2, Rcpt2}, k)
=============================================================================

----------------------------- MODULE EndToEndMC -----------------------------
(* A client program composed with the server of Session: the client writes commands and bodies
   as bytes, reads the server's bytes as replies and goes by their codes; the server sees only
   bytes.  Checked: what comes out is what EndToEnd says, and the two always come to the end
   (no deadlock, whether the client waits for each reply or sends ahead).                  *)
EXTENDS SessionMC
E2E == INSTANCE EndToEnd
Dt == INSTANCE Data

CONSTANTS Msgs,     \* what a message may be
          Count,    \* number of messages
          Modes

VARIABLES mode, todo, ph, j, opened, some, need, prog

cvars == <<mode, todo, ph, j, opened, some, need, prog>>

m == todo[1]
MailWire == B("MAIL FROM:<") \o m.f \o B(">") \o CRLF
RcptWire(a) == B("RCPT TO:<") \o a \o B(">") \o CRLF
DataWire == B("DATA") \o CRLF
RECURSIVE RcptsWire(_)
RcptsWire(t) == IF t = <<>> THEN <<>> ELSE RcptWire(t[1].a) \o RcptsWire(Tail(t))

EInit == /\ MInit
         /\ prog \in [1..Count -> Msgs] /\ todo = prog
         /\ mode \in Modes /\ ph = "start" /\ j = 0
         /\ opened = FALSE /\ some = FALSE /\ need = 1

(* replies the client has read: it goes on only when all it waits for have come *)
CodesNow == ReplyCodes
Heard == Len(CodesNow) >= need
LastCode == CodesNow[need]
Class(c) == c \div 100

Tx(b, k, p) == /\ Rx(b) /\ sent' = sent \o b /\ need' = need + k /\ ph' = p
               /\ UNCHANGED <<n, closed, hist, decs>>
Stay == UNCHANGED <<svars, sent, n, closed, hist, decs>>

Client ==
    /\ ~eof /\ Heard /\ UNCHANGED <<mode, prog>>
    /\ CASE ph = "start" ->
              IF todo = <<>> THEN Tx(B("QUIT") \o CRLF, 1, "quit") /\ UNCHANGED <<todo, j, opened, some>>
              ELSE IF mode = "l" THEN Tx(MailWire, 1, "mail") /\ UNCHANGED <<todo, j, opened, some>>
              ELSE Tx(MailWire \o RcptsWire(m.t) \o DataWire, 2 + Len(m.t), "group")
                   /\ UNCHANGED <<todo, j, opened, some>>
         [] ph = "mail" ->
              /\ Stay /\ UNCHANGED <<opened, need>>
              /\ IF Class(LastCode) = 2 THEN ph' = "rcpt" /\ j' = 1 /\ some' = FALSE /\ UNCHANGED todo
                 ELSE ph' = "start" /\ todo' = Tail(todo) /\ UNCHANGED <<j, some>>
         [] ph = "rcpt" ->
              IF j <= Len(m.t) THEN Tx(RcptWire(m.t[j].a), 1, "rcpted") /\ UNCHANGED <<todo, j, opened, some>>
              ELSE IF some THEN Tx(DataWire, 1, "data") /\ UNCHANGED <<todo, j, opened, some>>
              ELSE Stay /\ ph' = "start" /\ todo' = <<>> /\ UNCHANGED <<j, opened, some, need>>
         [] ph = "rcpted" ->
              Stay /\ ph' = "rcpt" /\ j' = j + 1 /\ some' = (some \/ Class(LastCode) = 2)
              /\ UNCHANGED <<todo, opened, need>>
         [] ph = "data" ->
              IF Class(LastCode) = 3
              THEN Tx(Dt!Wire(m.b), 1, "start") /\ todo' = Tail(todo) /\ UNCHANGED <<j, opened, some>>
              ELSE Stay /\ ph' = "start" /\ todo' = <<>> /\ UNCHANGED <<j, opened, some, need>>
         [] ph = "group" ->
              LET first == CodesNow[need - 1 - Len(m.t)]
              IN IF Class(LastCode) = 3
                 THEN /\ Tx(Dt!Wire(m.b), IF mode = "x" THEN 0 ELSE 1, IF mode = "x" THEN "late" ELSE "start")
                      /\ todo' = Tail(todo) /\ UNCHANGED <<j, opened, some>>
                 ELSE Stay /\ ph' = "start" /\ todo' = (IF Class(first) = 2 THEN <<>> ELSE Tail(todo))
                      /\ UNCHANGED <<j, opened, some, need>>
         [] ph = "late" ->      \* goes on before the reply to the message has come
              IF todo = <<>> THEN Tx(B("QUIT") \o CRLF, 2, "quit") /\ UNCHANGED <<todo, j, opened, some>>
              ELSE Tx(MailWire \o RcptsWire(m.t) \o DataWire, 3 + Len(m.t), "group") /\ UNCHANGED <<todo, j, opened, some>>
         [] ph = "quit" -> Eof /\ closed' = TRUE /\ UNCHANGED <<sent, n, hist, decs, cvars>>

(* the server decides as the message says *)
Decided(k) ==      \* which message is being served: sender commands so far
    prog[k]
NFrom == Cardinality(Idx("from"))
NTo == Cardinality({i \in Idx("to") : i > Last(Idx("from"))})
ServeAsSaid ==
    /\ UNCHANGED cvars
    /\ CASE pc = "from" ->
              LET a == BoxOf(cur) d == prog[NFrom + 1].df
              IN From(a, a, d, u) /\ Note([e |-> "from", a |-> a, a2 |-> a, d |-> d, u |-> u]) /\ Quietly
         [] pc = "to" ->
              LET a == BoxOf(cur) f == txn[1].f t == txn[1].t d == prog[NFrom].t[NTo + 1].d
              IN To(a, a, f, t, f, t, d, u) /\ Quietly
                 /\ Note([e |-> "to", a |-> a, mf |-> f, mt |-> t, a2 |-> a, mf2 |-> f, mt2 |-> t, d |-> d, u |-> u])
         [] pc = "data" ->
              LET f == txn[1].f t == txn[1].t d == prog[NFrom].dd
              IN Data(f, t, f, t, d, u) /\ Quietly
                 /\ Note([e |-> "data", mf |-> f, mt |-> t, mf2 |-> f, mt2 |-> t, d |-> d, u |-> u])
         [] pc = "dec" ->
              LET d == prog[NFrom].dm IN MailEnd(d) /\ Note([e |-> "hmend", d |-> d]) /\ Quietly
         [] OTHER -> Serve
EFinish == ended = "" /\ End("ok") /\ Note([e |-> "end", r |-> "ok"]) /\ Quietly /\ UNCHANGED cvars
           /\ IF Emit THEN PrintT(<<"CONV", ToJson([mode |-> mode, msgs |-> prog])>>) ELSE TRUE

ENext == Client \/ ServeAsSaid \/ EFinish
EVars == <<mvars, cvars>>
ESpec == EInit /\ [][ENext]_EVars /\ WF_EVars(ENext)

Want == E2E!Expected(cfg, mode, prog)
HandedNow ==
    LET ends == Idx("bend")
        hm(i) == Last({k \in Idx("hm") : k < i})
        one(i) == [f |-> hist[hm(i)].mf, t |-> hist[hm(i)].mt,
                   b |-> IF hist[i-1].e = "body" THEN hist[i-1].b ELSE <<>>, ok |-> hist[i].ok]
    IN MapOver(ends, one)
NormMail(x) == [x EXCEPT !.f = Norm(x.f), !.t = Norms(x.t)]
Understood ==
    ended # "" =>
        /\ HandedNow = [i \in 1..Len(Want.handed) |-> NormMail(Want.handed[i])]
        /\ ReplyCodes = [i \in 1..Len(Want.told) |-> Want.told[i][1]]
(* nothing is handed over that was not meant, at any time *)
NothingInvented == \A i \in 1..Len(HandedNow) : i <= Len(Want.handed) /\ HandedNow[i] = NormMail(Want.handed[i])
ComesToAnEnd == <>(ended = "ok")

------------------------------------------------------------------------------
R(a, d) == [a |-> B(a), d |-> d]
No == <<550, B("no")>>
Msg(f, df, t, dd, dm, b) == [f |-> B(f), df |-> df, t |-> t, dd |-> dd, dm |-> dm, b |-> b, x |-> 0]
Rcpts == {<<R("x@y", <<>>)>>, <<R("x@y", No), R("q", <<>>)>>, <<R("q", <<>>), R("x@y", <<>>)>>, <<R("x@y", No)>>}
SomeBodies == {<<>>, B("."), B("hi") \o CRLF, CRLF \o B(".") \o CRLF, B("MAIL FROM:<e>") \o CRLF \o B("."), <<13>>}
FewBodies == {B("."), B("RCPT TO:<e>") \o CRLF}
MsgsAll == {Msg(f, df, t, dd, dm, b) : f \in {"a@b.c", ""}, df \in {<<>>, No}, t \in Rcpts, dd \in {<<>>, No}, dm \in {<<>>, No}, b \in SomeBodies}
MsgsTiny == {Msg("a@b.c", df, <<R("q", <<>>), R("x", dt)>>, <<>>, dm, B(".") \o CRLF \o B(".x")) : df, dt, dm \in {<<>>, No}}
MsgsFew == {Msg(f, df, t, dd, <<>>, b) : f \in {"a@b.c"}, df \in {<<>>, No}, t \in Rcpts, dd \in {<<>>}, b \in FewBodies}
           \cup {Msg("", <<>>, <<R("q", <<>>)>>, No, No, B("x")), Msg("", <<>>, <<R("q", <<>>)>>, <<>>, No, B("x"))}
=============================================================================

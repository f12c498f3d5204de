------------------------------ MODULE Session ------------------------------
(* One SMTP connection as served by `interact`: the bytes of the client come in, calls to
   the configuration's filters and handler and the bytes of the replies go out.

   Each action X has an operator WhyX giving the reason why X is not allowed in the present
   state ("" if it is): the reasons name what a rejected trace did wrong.

   The state is what the properties talk about:
     cid          names the configuration
     rx, eof      bytes received and not yet used; whether the input has ended
     pc           what the server owes next: "idle" (nothing, or a reply: see exp), "new",
                  "from", "to", "data" (a filter call), "hm" (the handler call), "body"
                  (the handler is reading), "told" (it has been told that the body has ended),
                  "dec" (the handler has asked for completion),
                  "void" (the handler has given up the message without reading it to its end
                  and asking for completion; until the end marker nothing is a command)
     cur          the parsed line being served
     txn          <<>> or << [f, t] >>: the open transaction, sender and recipients
     exp, cause   the replies any one of which is owed now, and for what reason
     got          bytes of the owed reply sent so far
     unfl         something was sent and not flushed since
     dead         the output has failed
     ended        "" or the result the session returned
     u            number of callbacks that have seen the connection's metadata
     bs, dec, fin the body decoder: its state, what it has decoded and not yet handed over,
                  and whether it has seen the end marker
                                                                                       *)
EXTENDS Grammar

(* the configuration served with: its replies, and whether filter_data and new_mail are the
   trait's own (silent) *)
CONSTANT CfgOf(_)

VARIABLES cid, rx, eof, pc, cur, txn, exp, cause, got, unfl, dead, ended, u, bs, dec, fin

svars == <<cid, rx, eof, pc, cur, txn, exp, cause, got, unfl, dead, ended, u, bs, dec, fin>>

NullBox == [lo |-> <<>>, hk |-> "none", h |-> <<>>]
BoxOf(r) == [lo |-> r.lo, hk |-> r.hk, h |-> r.h]
(* address as recorded (the text the implementation writes for it) to abstract mailbox *)
Norm(a) == IF a = <<>> THEN NullBox ELSE BoxOf(Mailbox(a))
Norms(as) == [i \in 1..Len(as) |-> Norm(as[i])]

cfg == CfgOf(cid)

SessionInit(c) ==
    /\ cid = c
    /\ rx = <<>> /\ eof = FALSE /\ pc = "idle" /\ cur = Err
    /\ txn = <<>> /\ exp = {cfg.greet} /\ cause = "greet" /\ got = <<>>
    /\ unfl = FALSE /\ dead = FALSE /\ ended = "" /\ u = 0
    /\ bs = "S" /\ dec = <<>> /\ fin = FALSE

------------------------------------------------------------------------------
(* Body decoding: one automaton step per byte.  S start of a line, D a leading dot held back,
   E a leading dot and a CR held back, M in the middle of a line, C after a CR in a line,
   F after the end marker.                                                              *)

Mid(c) == IF c = CR THEN "C" ELSE "M"
StepState(s, c) ==
    CASE s = "S" -> IF c = DOT THEN "D" ELSE Mid(c)
      [] s = "D" -> IF c = CR THEN "E" ELSE Mid(c)
      [] s = "E" -> IF c = LF THEN "F" ELSE Mid(c)
      [] s = "C" -> IF c = LF THEN "S" ELSE Mid(c)
      [] s = "M" -> Mid(c)
StepOut(s, c) ==
    CASE s = "S" -> IF c = DOT THEN <<>> ELSE <<c>>
      [] s = "D" -> IF c = CR THEN <<>> ELSE <<c>>
      [] s = "E" -> IF c = LF THEN <<>> ELSE <<CR, c>>
      [] OTHER -> <<c>>

RECURSIVE Decode(_, _, _)
(* [st, out, n]: n bytes of b used, stopping right after the end marker *)
Decode(b, i, a) ==
    IF i > Len(b) \/ a.st = "F" THEN [a EXCEPT !.n = i - 1]
    ELSE Decode(b, i + 1, [st |-> StepState(a.st, b[i]), out |-> a.out \o StepOut(a.st, b[i]), n |-> i])

(* Absorb all that has been received into the body; the rest stays for the next commands. *)
Absorbs(s, d, b) ==
    LET r == Decode(b, 1, [st |-> s, out |-> <<>>, n |-> 0])
    IN [bs |-> r.st, dec |-> d \o r.out, rx |-> Drop(b, r.n), fin |-> r.st = "F"]

------------------------------------------------------------------------------
(* The client's side of the connection. *)

Quiet == exp = {} /\ pc = "idle"
HasLine == FindCrlf(rx, 1) # 0

(* going on behind a message given up, once the client has been told (cur is then "quit") and
   the end marker was seen *)
Resume == pc' = "idle" /\ cur' = Err /\ bs' = "S" /\ dec' = <<>> /\ fin' = FALSE
Absorbing == pc \in {"body", "void"} /\ ~fin

WhyRx == CASE ended # "" -> "after-end"
           [] dead -> "read-after-error"
           [] eof -> "read-again"
           [] pc = "told" -> "read-after-body-end"
           [] OTHER -> ""
Rx(b) ==
    /\ WhyRx = ""
    /\ IF Absorbing
       THEN LET a == Absorbs(bs, dec, b)
            IN IF pc = "void" /\ cur.k = "quit" /\ a.fin
               THEN Resume /\ rx' = a.rx
               ELSE bs' = a.bs /\ dec' = a.dec /\ rx' = a.rx /\ fin' = a.fin /\ UNCHANGED <<pc, cur>>
       ELSE rx' = rx \o b /\ UNCHANGED <<bs, dec, fin, pc, cur>>
    /\ UNCHANGED <<cid, eof, txn, exp, cause, got, unfl, dead, ended, u>>

(* The server waits: nothing may be owed and nothing unflushed. *)
WhyPend == CASE ended # "" -> "after-end"
             [] dead -> "read-after-error"
             [] eof -> "read-again"
             [] cause = "greet" /\ exp # {} -> "wait-before-greeting"
             [] exp # {} -> "wait-before-reply"
             [] pc = "told" -> "read-after-body-end"
             [] pc \in {"new", "from", "to", "data", "hm", "dec"} -> "wait-before-callback"
             [] pc \in {"body", "void"} /\ fin -> "wait-after-marker"
             [] pc = "idle" /\ HasLine -> "wait-before-line"
             [] unfl -> "wait-unflushed"
             [] OTHER -> ""
Pend == WhyPend = "" /\ UNCHANGED svars

WhyEof == WhyRx

(* Taking more input than needed.  These do not end the judgement of a trace: what was taken
   is served all the same.  Little: what may be held back of a body.                       *)
Little == 4
Holding == pc = "body" /\ Len(dec) > Little
WhyEager ==
    CASE ended # "" \/ dead -> ""
      [] exp # {} -> "took-before-reply"
      [] pc \in {"new", "from", "to", "data", "hm"} -> "took-before-callback"
      [] pc = "dec" \/ (pc = "body" /\ fin) -> "took-before-final"
      [] pc = "idle" /\ HasLine -> "took-before-line"
      [] Holding -> "took-before-body"
      [] OTHER -> ""
WhyHold == IF Holding /\ ended = "" /\ ~dead THEN "waits-holding-body" ELSE ""

Eof == WhyEof = "" /\ eof' = TRUE
       /\ UNCHANGED <<cid, rx, pc, cur, txn, exp, cause, got, unfl, dead, ended, u, bs, dec, fin>>

------------------------------------------------------------------------------
(* Taking the next line, when nothing is owed. *)

CanTake == Quiet /\ HasLine /\ ~dead /\ ended = ""
ParsesOf(l) == LET r == Parse(l) IN IF Lenient(l) THEN {r, Err} ELSE {r}

Owe(rs, why) == exp' = rs /\ cause' = why
Idle(c) == pc' = "idle" /\ cur' = c

TakeLine ==
    /\ CanTake
    /\ LET n == FindCrlf(rx, 1) + 1
           line == Take(rx, n)
       IN /\ rx' = Drop(rx, n)
          /\ \E c \in ParsesOf(line) :
                CASE c.k = "mail" ->
                        IF txn # <<>> THEN Owe({cfg.already}, "badseq") /\ Idle(c)
                        ELSE Owe({}, "") /\ cur' = c /\ pc' = IF cfg.silent THEN "from" ELSE "new"
                  [] c.k = "rcpt" ->
                        IF txn = <<>> THEN Owe({cfg.rcptbm}, "badseq") /\ Idle(c)
                        ELSE Owe({}, "") /\ cur' = c /\ pc' = "to"
                  [] c.k = "data" ->
                        IF txn = <<>> THEN Owe({cfg.databm}, "badseq") /\ Idle(c)
                        ELSE IF txn[1].t = <<>> THEN Owe({cfg.databr}, "badseq") /\ Idle(c)
                        ELSE IF cfg.silent THEN Owe({cfg.dataok}, "go") /\ cur' = c /\ pc' = "hm"
                        ELSE Owe({}, "") /\ cur' = c /\ pc' = "data"
                  [] c.k = "err" -> Owe({cfg.unrec}, "unrec") /\ Idle(c)
                  [] OTHER -> Owe({cfg.unimpl}, "unimpl") /\ Idle(c)
    /\ UNCHANGED <<cid, eof, txn, got, unfl, dead, ended, u, bs, dec, fin>>

------------------------------------------------------------------------------
(* Calls to the configuration. *)

WhyCall(me) ==
    CASE ended # "" -> "after-end"
      [] dead -> "call-after-error"
      [] exp # {} -> IF cause = "badseq" THEN "call-illegal"
                     ELSE IF cause = "unrec" THEN "call-for-invalid-line" ELSE "call-before-reply"
      [] pc = me -> ""
      [] pc = "idle" /\ eof /\ rx # <<>> /\ ~HasLine -> "call-for-partial-line"
      [] pc = "idle" -> "call-without-command"
      [] pc = "new" /\ me = "from" -> "not-announced"
      [] pc \in {"body", "told", "dec"} -> "call-during-mail"
      [] pc = "void" -> "call-from-unread-mail"
      [] OTHER -> "call-wrong"

IsAccept(d) == d = <<>>      \* a decision: <<>> to accept, <<code, text>> to refuse
Verdict(d, okreply, c) ==
    IF IsAccept(d) THEN Owe({okreply}, c) ELSE Owe({<<d[1], d[2]>>}, "refused")

WhyNew == WhyCall("new")
New == WhyNew = "" /\ pc' = "from"
       /\ UNCHANGED <<cid, rx, eof, cur, txn, exp, cause, got, unfl, dead, ended, u, bs, dec, fin>>

WhyFrom(a, uu) ==
    CASE WhyCall("from") # "" -> WhyCall("from")
      [] a # BoxOf(cur) -> "sender-differs"
      [] uu # u -> "metadata-differs"
      [] OTHER -> ""
From(a, a2, d, uu) ==
    /\ WhyFrom(a, uu) = ""
    /\ pc' = "idle"
    /\ txn' = IF IsAccept(d) THEN <<[f |-> a2, t |-> <<>>]>> ELSE <<>>
    /\ Verdict(d, cfg.mailok, "ok")
    /\ u' = u + 1
    /\ UNCHANGED <<cid, rx, eof, cur, got, unfl, dead, ended, bs, dec, fin>>

WhyTo(a, mf, mt, uu) ==
    CASE WhyCall("to") # "" -> WhyCall("to")
      [] a # BoxOf(cur) -> "recipient-differs"
      [] mf # txn[1].f -> "envelope-sender-differs"
      [] mt # txn[1].t -> "envelope-recipients-differ"
      [] uu # u -> "metadata-differs"
      [] OTHER -> ""
To(a, a2, mf, mt, mf2, mt2, d, uu) ==
    /\ WhyTo(a, mf, mt, uu) = ""
    /\ pc' = "idle"
    /\ txn' = <<[f |-> mf2, t |-> IF IsAccept(d) THEN Append(mt2, a2) ELSE mt2]>>
    /\ Verdict(d, cfg.rcptok, "ok")
    /\ u' = u + 1
    /\ UNCHANGED <<cid, rx, eof, cur, got, unfl, dead, ended, bs, dec, fin>>

WhyData(mf, mt, uu) ==
    CASE WhyCall("data") # "" -> WhyCall("data")
      [] mf # txn[1].f -> "envelope-sender-differs"
      [] mt # txn[1].t -> "envelope-recipients-differ"
      [] uu # u -> "metadata-differs"
      [] OTHER -> ""
Data(mf, mt, mf2, mt2, d, uu) ==
    /\ WhyData(mf, mt, uu) = ""
    /\ pc' = IF IsAccept(d) THEN "hm" ELSE "idle"
    /\ txn' = <<[f |-> mf2, t |-> mt2]>>
    /\ Verdict(d, cfg.dataok, "go")
    /\ u' = u + 1
    /\ UNCHANGED <<cid, rx, eof, cur, got, unfl, dead, ended, bs, dec, fin>>

WhyMail(mf, mt, uu) ==
    CASE exp # {} /\ pc = "hm" /\ ~dead -> "mail-before-go-ahead"
      [] WhyCall("hm") # "" -> "mail-" \o WhyCall("hm")
      [] mf # txn[1].f -> "mail-sender-differs"
      [] mt # txn[1].t -> "mail-recipients-differ"
      [] uu # u -> "metadata-differs"
      [] OTHER -> ""
(* The transaction is handed over: it ends here. *)
HandleMail(mf, mt, uu) ==
    /\ WhyMail(mf, mt, uu) = ""
    /\ pc' = "body" /\ txn' = <<>> /\ u' = u + 1
    /\ LET a == Absorbs("S", <<>>, rx)
       IN bs' = a.bs /\ dec' = a.dec /\ rx' = a.rx /\ fin' = a.fin
    /\ UNCHANGED <<cid, eof, cur, exp, cause, got, unfl, dead, ended>>

WhyBody(b) ==
    CASE dead -> "call-after-error"
      [] pc = "told" -> "body-after-end"
      [] pc # "body" -> "body-outside-mail"
      [] ~IsPrefixOf(b, dec) -> IF Len(b) > Len(dec) /\ IsPrefixOf(dec, b)
                                THEN "body-too-much" ELSE "body-differs"
      [] OTHER -> ""
Body(b) ==
    /\ WhyBody(b) = ""
    /\ dec' = Drop(dec, Len(b))
    /\ UNCHANGED <<cid, rx, eof, pc, cur, txn, exp, cause, got, unfl, dead, ended, u, bs, fin>>

(* The handler is told that the body has ended.  That is final: whatever it asks for after
   that, before or after completion, it is told the same, and nothing is read for it.     *)
WhyNone ==
    CASE pc \in {"told", "dec", "void"} -> ""
      [] pc # "body" -> "body-outside-mail"
      [] ~fin /\ ~eof -> "body-ends-early"
      [] fin /\ dec # <<>> -> "body-truncated"
      [] OTHER -> ""
None ==
    /\ WhyNone = ""
    /\ pc' = IF pc = "body" THEN "told" ELSE pc
    /\ UNCHANGED <<cid, rx, eof, cur, txn, exp, cause, got, unfl, dead, ended, u, bs, dec, fin>>
WhyMore == IF pc \in {"told", "dec", "void"} THEN "" ELSE "body-outside-mail"
More == WhyMore = "" /\ UNCHANGED svars

(* The handler gives up: it returns, or asks for completion, though it has not read the body to
   its end.  This is an error of the configuration.  The session may stop there and then, in
   whatever way (a panic included), or tell the client with one reply, drop what is left of the
   body and go on behind its end marker; no byte of the body is ever a command.            *)
WhyMailQuit == IF pc \notin {"body", "told"} THEN "body-outside-mail" ELSE ""
MailQuit ==
    /\ WhyMailQuit = ""
    /\ pc' = "void" /\ cur' = Err
    /\ UNCHANGED <<cid, rx, eof, txn, exp, cause, got, unfl, dead, ended, u, bs, dec, fin>>
WhyPanic == IF pc = "void" /\ ended = "" THEN "" ELSE "panic"
Panic == /\ WhyPanic = "" /\ ended' = "panic"
         /\ UNCHANGED <<cid, rx, eof, pc, cur, txn, exp, cause, got, unfl, dead, u, bs, dec, fin>>

(* The handler has seen the end of the body and asks whether the message is complete. *)
WhyBodyEnd(ok) ==
    CASE pc = "void" -> IF ok /\ ~(fin /\ dec = <<>>) THEN "unread-said-complete" ELSE ""
      [] pc \notin {"body", "told"} -> "body-outside-mail"
      [] ok /\ ~fin -> IF eof THEN "cut-off-said-complete" ELSE "body-ends-early"
      [] ok /\ dec # <<>> -> "body-truncated"
      [] ~ok /\ fin -> "complete-said-cut-off"
      [] ~ok /\ ~eof -> "body-ends-early"
      [] OTHER -> ""
BodyEnd(ok) ==
    /\ WhyBodyEnd(ok) = ""
    /\ IF pc = "void" /\ ~ok THEN UNCHANGED <<pc, dec, bs, fin>>
       ELSE pc' = "dec" /\ dec' = <<>> /\ bs' = "S" /\ fin' = FALSE
    /\ UNCHANGED <<cid, rx, eof, cur, txn, exp, cause, got, unfl, dead, ended, u>>

WhyMailEnd == IF pc \notin {"dec", "void"} THEN "body-outside-mail" ELSE ""
MailEnd(d) ==
    /\ WhyMailEnd = ""
    /\ IF pc = "void" THEN UNCHANGED <<pc, exp, cause>>
       ELSE pc' = "idle" /\ Verdict(d, cfg.accepted, "final")
    /\ UNCHANGED <<cid, rx, eof, cur, txn, got, unfl, dead, ended, u, bs, dec, fin>>

------------------------------------------------------------------------------
(* Output. *)

IsOwed(b) == \E r \in exp : IsReply(b, r[1], r[2])
(* b is one or more whole reply lines, the last of which is marked last *)
Finished(b) == LET ls == ReplyLines(b)
               IN /\ Len(ls) >= 1
                  /\ \A i \in 1..Len(ls) : IsReplyLine(ls[i])
                  /\ ReplyLast(ls[Len(ls)])
Malformed(b) == LET ls == ReplyLines(b)
                IN \E i \in 1..Len(ls) :
                      \/ ls[i] # <<>> /\ ~IsReplyLine(ls[i])
                      \/ Len(ls[i]) > 512
                      \/ IsReplyLine(ls[i]) /\ ReplyLast(ls[i]) /\ i # Len(ls)
                      \/ IsReplyLine(ls[i]) /\ ReplyCodeOf(ls[i]) # ReplyCodeOf(ls[1])

WhyOut(b) ==
    CASE ended # "" -> "after-end"
      [] dead -> "send-after-error"
      [] exp = {} /\ pc \in {"new", "from", "to", "data"} -> "reply-without-" \o pc
      [] exp = {} /\ pc = "hm" -> "reply-without-handler"
      [] exp = {} /\ pc \in {"body", "told", "dec"} -> "reply-during-mail"
      [] exp = {} /\ pc = "void" -> IF cur.k = "quit" THEN "reply-from-unread-mail"
                                    ELSE IF Malformed(got \o b) THEN "reply-malformed" ELSE ""
      [] exp = {} /\ eof /\ rx # <<>> /\ ~HasLine -> "reply-to-partial-line"
      [] exp = {} -> "reply-extra"
      [] IsOwed(got \o b) -> ""
      [] Malformed(got \o b) -> "reply-malformed"
      [] Finished(got \o b) -> "reply-wrong-" \o cause
      [] OTHER -> ""
Out(b) ==
    /\ WhyOut(b) = ""
    /\ IF pc = "void"
       THEN /\ UNCHANGED <<exp, cause>>
            /\ IF Finished(got \o b)
               THEN got' = <<>> /\ IF fin THEN Resume
                                  ELSE cur' = Plain("quit") /\ UNCHANGED <<pc, bs, dec, fin>>
               ELSE got' = got \o b /\ UNCHANGED <<pc, cur, bs, dec, fin>>
       ELSE /\ IF IsOwed(got \o b) THEN exp' = {} /\ cause' = "" /\ got' = <<>>
                                   ELSE UNCHANGED <<exp, cause>> /\ got' = got \o b
            /\ UNCHANGED <<pc, cur, bs, dec, fin>>
    /\ unfl' = TRUE
    /\ UNCHANGED <<cid, rx, eof, txn, dead, ended, u>>

WhyFlush == IF dead THEN "send-after-error" ELSE ""
Flush == WhyFlush = "" /\ unfl' = FALSE
         /\ UNCHANGED <<cid, rx, eof, pc, cur, txn, exp, cause, got, dead, ended, u, bs, dec, fin>>

OutError == /\ dead' = TRUE
            /\ UNCHANGED <<cid, rx, eof, pc, cur, txn, exp, cause, got, unfl, ended, u, bs, dec, fin>>

WhyEnd(res) ==
    CASE dead -> IF res = "err" THEN "" ELSE "error-not-returned"
      [] pc = "void" -> IF unfl THEN "end-unflushed" ELSE ""
      [] res # "ok" -> "error-returned"
      [] ~eof -> "end-before-eof"
      [] exp # {} -> IF cause = "greet" THEN "end-before-greeting" ELSE "end-before-reply"
      [] pc # "idle" -> "end-before-callback"
      [] HasLine -> "end-before-line"
      [] unfl -> "end-unflushed"
      [] OTHER -> ""
End(res) ==
    /\ WhyEnd(res) = ""
    /\ ended' = res
    /\ UNCHANGED <<cid, rx, eof, pc, cur, txn, exp, cause, got, unfl, dead, u, bs, dec, fin>>
=============================================================================

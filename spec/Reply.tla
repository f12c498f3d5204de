------------------------------- MODULE Reply -------------------------------
(* Replies: a model of sending one (in chunks of K bytes, one line at a time) and of reading
   it back, checked for all codes and texts up to a bound. *)
EXTENDS Grammar
CONSTANTS K, N, Codes, Chars

VARIABLES code, text, todo, wire, rd, got, pc
vars == <<code, text, todo, wire, rd, got, pc>>

Init == /\ code \in Codes
        /\ text \in UNION {[1..n -> Chars] : n \in 0..N}
        /\ todo = text /\ wire = <<>> /\ rd = 1 /\ got = <<>> /\ pc = "send"

(* one line of the reply; the last one may be empty only if the text is *)
Send == /\ pc = "send"
        /\ IF Len(todo) <= K
           THEN /\ wire' = wire \o ReplyLine(code, TRUE, todo) /\ todo' = <<>> /\ pc' = "read"
           ELSE /\ wire' = wire \o ReplyLine(code, FALSE, Take(todo, K)) /\ todo' = Drop(todo, K) /\ pc' = pc
        /\ UNCHANGED <<code, text, rd, got>>
(* the receiver takes one line *)
Line == LET p == FindCrlf(wire, rd) IN SubSeq(wire, rd, p + 1)
Read == /\ pc = "read"
        /\ got' = got \o ReplyTextOf(Line)
        /\ rd' = rd + Len(Line)
        /\ pc' = IF ReplyLast(Line) THEN "done" ELSE "read"
        /\ UNCHANGED <<code, text, todo, wire>>
Next == Send \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LineOk == pc = "read" => IsReplyLine(Line) /\ ReplyCodeOf(Line) = code /\ Len(ReplyTextOf(Line)) <= K
WellFormed == pc # "send" => IsReply(wire, code, text)
Received == pc = "done" => got = text /\ rd = Len(wire) + 1
Once == pc = "done" => Len(ReplyLines(wire)) = (IF text = <<>> THEN 1 ELSE (Len(text) + K - 1) \div K)
Done == <>(pc = "done")

(* A line is a reply line exactly when writing what it says gives it back. *)
VARIABLE l
LInit == l = <<>> /\ code = 0 /\ text = <<>> /\ todo = <<>> /\ wire = <<>> /\ rd = 1 /\ got = <<>> /\ pc = "send"
LNext == Len(l) < N /\ (\E c \in Chars : l' = Append(l, c)) /\ UNCHANGED vars
LSpec == LInit /\ [][LNext]_<<vars, l>>
Exactly == IsReplyLine(l \o CRLF) =>
             ReplyLine(ReplyCodeOf(l \o CRLF), ReplyLast(l \o CRLF), ReplyTextOf(l \o CRLF)) = l \o CRLF
Built == \A c \in Codes, last \in BOOLEAN : (\A i \in 1..Len(l) : l[i] \in ReplyText) =>
            LET w == ReplyLine(c, last, l)
            IN IsReplyLine(w) /\ ReplyCodeOf(w) = c /\ ReplyLast(w) = last /\ ReplyTextOf(w) = l
SpecR == Init /\ l = <<>> /\ [][Next /\ UNCHANGED l]_<<vars, l>> /\ WF_<<vars, l>>(Next /\ UNCHANGED l)
=============================================================================

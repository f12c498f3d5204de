------------------------------ MODULE EndToEnd ------------------------------
(* What a client and a server that understand each other bring about: a function from what the
   client is to send and what the server's configuration decides to what the client is told and
   what the handler is handed.  It says nothing about bytes on the wire, packets, or states.

   A message is [f, df, t, dd, dm, b, x]: sender, recipients (t[i].a) and body, the decisions
   on the sender (df), on each recipient (t[i].d), on the data command (dd) and on the message
   (dm) (<<>> to accept, <<code, text>> to refuse), and the number x of commands without a
   meaning for the server sent before.  A client in lock step ("l") skips a message whose sender
   was refused; others ("p", "x") have by then sent the rest of the commands too.  All stop when
   a transaction is left open: no recipient accepted, or data refused.                       *)
EXTENDS Grammar
LOCAL D == INSTANCE Data

Says(c, d, ok) == IF d = <<>> THEN ok ELSE <<d[1], d[2]>>
BodyOf(b) == b \o (IF D!EndsLine(b) THEN <<>> ELSE CRLF)
Times(k, r) == [i \in 1..k |-> r]
RECURSIVE Taken(_)
Taken(t) == IF t = <<>> THEN <<>> ELSE (IF t[1].d = <<>> THEN <<t[1].a>> ELSE <<>>) \o Taken(Tail(t))

(* a = [told, handed, open] *)
Told(a, rs) == [a EXCEPT !.told = @ \o rs]
Step(c, mode, a, m) ==
    LET a1 == Told(a, Times(m.x, c.unimpl))
        mail == Says(c, m.df, c.mailok)
        rcpts == [i \in 1..Len(m.t) |-> Says(c, m.t[i].d, c.rcptok)]
        a3 == Told(Told(a1, <<mail>>), rcpts)
    IN IF m.df # <<>>
       THEN Told(a1, <<mail>> \o IF mode = "l" THEN <<>> ELSE Times(Len(m.t), c.rcptbm) \o <<c.databm>>)
       ELSE IF Taken(m.t) = <<>>
       THEN [Told(a3, IF mode = "l" THEN <<>> ELSE <<c.databr>>) EXCEPT !.open = TRUE]
       ELSE IF m.dd # <<>>
       THEN [Told(a3, <<m.dd>>) EXCEPT !.open = TRUE]
       ELSE [Told(a3, <<c.dataok, Says(c, m.dm, c.accepted)>>)
             EXCEPT !.handed = Append(@, [f |-> m.f, t |-> Taken(m.t), b |-> BodyOf(m.b), ok |-> TRUE])]

RECURSIVE Course(_, _, _, _)
Course(c, mode, a, ms) ==
    IF ms = <<>> \/ a.open THEN a ELSE Course(c, mode, Step(c, mode, a, ms[1]), Tail(ms))
(* the client ends with one more command the server does not know what to do with *)
Expected(c, mode, ms) ==
    LET a == Course(c, mode, [told |-> <<c.greet>>, handed |-> <<>>, open |-> FALSE], ms)
    IN [told |-> Append(a.told, c.unimpl), handed |-> a.handed]
=============================================================================

-------------------------------- MODULE Data --------------------------------
(* Message bodies on the wire, stated over whole strings (no automaton, no packets):
   lines are what lies between CRLFs; a line consisting of a single dot ends the message;
   every other line that starts with a dot loses that dot.                               *)
EXTENDS Bytes

RECURSIVE LinesOf(_)
(* the CRLF-separated pieces of b; the last one is what follows the last CRLF *)
LinesOf(b) == LET p == FindCrlf(b, 1)
              IN IF p = 0 THEN <<b>> ELSE <<Take(b, p - 1)>> \o LinesOf(Drop(b, p + 1))
RECURSIVE JoinLines(_)
JoinLines(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o CRLF \o JoinLines(Tail(ls))

IsDot(l) == l = <<DOT>>
(* number of the line that is the end marker, 0 if there is none; the last piece is not a line *)
MarkerLine(ls) == LET S == {i \in 1..(Len(ls) - 1) : IsDot(ls[i])} IN IF S = {} THEN 0 ELSE Least(S)

Undot(l) == IF l # <<>> /\ l[1] = DOT THEN Tail(l) ELSE l
Redot(l) == IF l # <<>> /\ l[1] = DOT THEN <<DOT>> \o l ELSE l
MapLines(F(_), ls) == [i \in 1..Len(ls) |-> F(ls[i])]

HasMarker(b) == MarkerLine(LinesOf(b)) # 0
(* the message at the start of b, if it is complete *)
Message(b) ==
    LET ls == LinesOf(b) m == MarkerLine(ls)
    IN IF m = 1 THEN <<>>
       ELSE JoinLines(Append(MapLines(Undot, Take(ls, m - 1)), <<>>))
AfterMarker(b) == LET ls == LinesOf(b) m == MarkerLine(ls) IN JoinLines(Drop(ls, m))

(* out may have been given to the reader of a message cut off after b: a prefix of what every
   completed message that starts with b decodes to.                                       *)
CertainOf(b) ==
    LET ls == LinesOf(b)
        all == MapLines(Undot, ls)
        l == ls[Len(ls)]
        hd == IF Len(ls) = 1 THEN <<>> ELSE JoinLines(Append(Take(all, Len(ls) - 1), <<>>))
    IN IF l \in {<<DOT>>, <<DOT, CR>>} THEN hd     \* may yet turn out to be the end marker
       ELSE hd \o all[Len(ls)]

Stuffed(b) == JoinLines(MapLines(Redot, LinesOf(b)))
EndsLine(b) == b = <<>> \/ (Len(b) >= 2 /\ SubSeq(b, Len(b) - 1, Len(b)) = CRLF)
Wire(b) == Stuffed(b) \o (IF EndsLine(b) THEN <<>> ELSE CRLF) \o <<DOT>> \o CRLF
=============================================================================

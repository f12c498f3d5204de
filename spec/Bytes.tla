------------------------------- MODULE Bytes -------------------------------
(* Byte classes and small helpers over byte strings (sequences of 0..255). *)
EXTENDS Naturals, Sequences

TAB == 9    LF == 10    CR == 13    SP == 32
DQUOTE == 34    DASH == 45    DOT == 46    COLON == 58
LT == 60    EQU == 61    GT == 62    AT == 64
LBRA == 91    BACKSLASH == 92    RBRA == 93    COMMA == 44

CRLF == <<13, 10>>

Digits   == 48..57
Uppers   == 65..90
Lowers   == 97..122
Alnum    == Digits \cup Uppers \cup Lowers
AlnumDash == Alnum \cup {45}
(* atext of RFC 5322: ! # $ % & ' * + - / = ? ^ _ ` { | } ~ *)
Atext    == Alnum \cup {33,35,36,37,38,39,42,43,45,47,61,63,94,95,96,123,124,125,126}
(* the printable characters other than space and "=" *)
ParamVal == (33..126) \ {61}
Blank    == {32, 9}
HexDigit == Digits \cup (65..70) \cup (97..102)
(* bytes a reply text may hold *)
ReplyText == {9} \cup (32..126)

Lower(c) == IF c \in Uppers THEN c + 32 ELSE c

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* First position >= p of l that is not in class S (Len(l)+1 if none). *)
RECURSIVE RunEnd(_, _, _)
RunEnd(l, p, S) == IF p <= Len(l) /\ l[p] \in S THEN RunEnd(l, p + 1, S) ELSE p

(* Long inputs are recorded with each run of n bytes "y" as the one number Run + n: a run
   behaves as one ordinary byte.  A prefix may end inside a run. *)
Run == 1000
IsPrefixUpToRun(a, b) ==
    \/ IsPrefixOf(a, b)
    \/ LET n == Len(a) IN /\ n > 0 /\ n <= Len(b) /\ a[n] > Run /\ a[n] <= b[n]
                          /\ SubSeq(a, 1, n - 1) = SubSeq(b, 1, n - 1)

Least(S) == CHOOSE i \in S : \A j \in S : i <= j

(* the least number of an interval for which P holds, 0 if there is none *)
First(P(_), lo, hi) == IF \E i \in lo..hi : P(i)
                       THEN CHOOSE i \in lo..hi : P(i) /\ \A j \in lo..(i - 1) : ~P(j)
                       ELSE 0

(* First position >= p holding byte c, 0 if none. *)
FindByte(l, p, c) == LET P(i) == l[i] = c IN First(P, p, Len(l))

(* First position >= p of the two bytes a, b; 0 if none. *)
FindPair(l, p, a, b) == LET P(i) == l[i] = a /\ l[i + 1] = b IN First(P, p, Len(l) - 1)

FindCrlf(l, p) == FindPair(l, p, CR, LF)

TagAt(l, p, t) == p + Len(t) - 1 <= Len(l) /\ \A i \in 1..Len(t) : l[p + i - 1] = t[i]
TagNoCase(l, p, t) ==
    p + Len(t) - 1 <= Len(l) /\ \A i \in 1..Len(t) : Lower(l[p + i - 1]) = Lower(t[i])
=============================================================================

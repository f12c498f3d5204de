------------------------------- MODULE View -------------------------------
(* Views of a byte string.  views: the views a program holds, each as the bytes it stands for
   (the first is the whole string).  A cut of a view is a view; a cut outside of the view is
   refused, whatever lies around the view in the string. *)
EXTENDS Integers, Sequences
VARIABLES views

Within(v, a, b) == 0 <= a /\ a <= b /\ b <= Len(v)
Part(v, a, b) == SubSeq(v, a + 1, b)        \* positions a..b-1, counted from 0
Can(o) == CASE o[1] = "range" -> Within(views[o[2]], o[3], o[4])
            [] o[1] = "to" -> Within(views[o[2]], 0, o[3])
            [] o[1] = "from" -> Within(views[o[2]], o[3], Len(views[o[2]]))
            [] OTHER -> TRUE
Cut(o) == LET v == views[o[2]]
          IN CASE o[1] = "range" -> Part(v, o[3], o[4])
               [] o[1] = "to" -> Part(v, 0, o[3])
               [] o[1] = "from" -> Part(v, o[3], Len(v))
               [] OTHER -> v                \* full, copy
Take(o) == views' = IF Can(o) THEN Append(views, Cut(o)) ELSE views

(* What can be asked about a view *)
At(v, s, k) == k + Len(s) <= Len(v) /\ SubSeq(v, k + 1, k + Len(s)) = s
Find(v, s) == LET K == {k \in 0..Len(v) : At(v, s, k)} IN IF K = {} THEN -1 ELSE CHOOSE k \in K : \A j \in K : k <= j
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Begins(v, s, Same(_, _)) ==
    LET m == IF Len(v) < Len(s) THEN Len(v) ELSE Len(s)
    IN IF \E k \in 1..m : ~Same(v[k], s[k]) THEN "error" ELSE IF m < Len(s) THEN "incomplete" ELSE "ok"
Equal(a, b) == a = b
NoCase(a, b) == Lower(a) = Lower(b)
Index(v, n) == IF n <= Len(v) THEN n ELSE -1
(* the well-formed byte sequences of UTF-8 (Unicode, table 3-7) *)
Tail1 == 128..191
Rows == << <<0..127>>, <<194..223, Tail1>>, <<{224}, 160..191, Tail1>>, <<225..236 \cup 238..239, Tail1, Tail1>>, <<{237}, 128..159, Tail1>>,
           <<{240}, 144..191, Tail1, Tail1>>, <<241..243, Tail1, Tail1, Tail1>>, <<{244}, 128..143, Tail1, Tail1>> >>
IsRow(v, i, r) == i + Len(r) - 1 <= Len(v) /\ \A k \in 1..Len(r) : v[i + k - 1] \in r[k]
RECURSIVE Utf8From(_, _)
Utf8From(v, i) == IF i > Len(v) THEN TRUE
                  ELSE LET R == {k \in 1..Len(Rows) : IsRow(v, i, Rows[k])}
                       IN R # {} /\ Utf8From(v, i + Len(Rows[CHOOSE k \in R : TRUE]))
Utf8(v) == Utf8From(v, 1)
=============================================================================

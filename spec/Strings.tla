------------------------------ MODULE Strings ------------------------------
(* Texts as values.  slots: the texts a program holds; a value never changes except by being
   used up.  New makes one, Dup copies one, Join uses two up and makes one of both, Chop adds
   the pieces of at most n bytes that one is cut into. *)
EXTENDS Naturals, Sequences
VARIABLES slots

Drop(s, J) == LET RECURSIVE Go(_, _)
                  Go(k, acc) == IF k > Len(s) THEN acc ELSE Go(k + 1, IF k \in J THEN acc ELSE Append(acc, s[k]))
              IN Go(1, <<>>)
Min(a, b) == IF a < b THEN a ELSE b
Pieces(v, n) == [k \in 1..((Len(v) + n - 1) \div n) |-> SubSeq(v, (k - 1) * n + 1, Min(Len(v), k * n))]

New(v) == slots' = Append(slots, v)
Dup(i) == i \in 1..Len(slots) /\ slots' = Append(slots, slots[i])
Join(i, j) == {i, j} \subseteq 1..Len(slots) /\ i # j /\ slots' = Append(Drop(slots, {i, j}), slots[i] \o slots[j])
Chop(i, n) == i \in 1..Len(slots) /\ n > 0 /\ slots' = slots \o Pieces(slots[i], n)
Del(i) == i \in 1..Len(slots) /\ slots' = Drop(slots, {i})
=============================================================================

------------------------------ MODULE StringsMC ------------------------------
(* All histories of up to N operations on texts of the given lengths (around the length up to
   which the library keeps bytes inline), checked for what cutting and joining must keep, and
   printed to be replayed on the real texts.  One history per state of the history variable. *)
EXTENDS Strings, TLC, Json
CONSTANTS N, Sizes, Cuts, MostSlots, EmitIt
VARIABLES hist
mvars == <<slots, hist>>
Kinds == {"v", "b", "t", "s", "o"}     \* made from a vector, shared bytes, a string, fixed bytes, a slice of other bytes
Value(n, k) == [j \in 1..n |-> 33 + ((k * 7 + j) % 90)]
MInit == slots = <<>> /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
MNew == \E n \in Sizes, d \in Kinds : /\ Len(slots) < MostSlots /\ (hist = <<>> \/ d \in {"v", "o"})
                                      /\ New(Value(n, Len(hist))) /\ Op(<<"new", n, d>>)
MDup == \E i \in 1..Len(slots) : Len(slots) < MostSlots /\ Dup(i) /\ Op(<<"dup", i>>)
MJoin == \E i, j \in 1..Len(slots) : Join(i, j) /\ Op(<<"join", i, j>>)
MChop == \E i \in 1..Len(slots), n \in Cuts : Len(slots) + Len(Pieces(slots[i], n)) <= MostSlots /\ Chop(i, n) /\ Op(<<"chop", i, n>>)
MDel == \E i \in 1..Len(slots) : Len(slots) > 1 /\ Del(i) /\ Op(<<"del", i>>)
MNext == Len(hist) < N /\ (MNew \/ MDup \/ MJoin \/ MChop \/ MDel)
MSpec == MInit /\ [][MNext]_mvars

RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
(* cutting loses nothing, adds nothing, and leaves no empty or oversized piece *)
CutWell == \A i \in 1..Len(slots), n \in Cuts : LET ps == Pieces(slots[i], n)
              IN /\ Flat(ps) = slots[i]
                 /\ \A k \in 1..Len(ps) : Len(ps[k]) \in 1..n /\ (k < Len(ps) => Len(ps[k]) = n)
Emit == EmitIt /\ Len(hist) = N => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================

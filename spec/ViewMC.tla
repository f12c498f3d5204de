------------------------------ MODULE ViewMC ------------------------------
(* All histories of up to N cuts of strings of the given lengths, beside a design that keeps
   for each view where it begins and ends in the string (where), which must stand for the same
   bytes and never reach beyond the view it was cut from.  The histories are printed, to be
   replayed on the real views. *)
EXTENDS View, TLC, Json
CONSTANTS N, Sizes, EmitIt
VARIABLES base, where, from, hist
mvars == <<views, base, where, from, hist>>
MInit == \E n \in Sizes : /\ base = [k \in 1..n |-> 64 + k] /\ views = <<base>>
                          /\ where = << <<0, n>> >> /\ from = <<0>> /\ hist = <<>>
Of(i) == Len(views[i])
Ops(i) == {<<"range", i, a, b>> : a \in 0..Of(i) + 1, b \in 0..Len(base) + 1} \cup {<<"to", i, b>> : b \in 0..Len(base) + 1}
          \cup {<<"from", i, a>> : a \in 0..Len(base) + 1} \cup {<<"full", i>>, <<"copy", i>>}
Place(o) == LET w == where[o[2]]
            IN CASE o[1] = "range" -> <<w[1] + o[3], w[1] + o[4]>>
                 [] o[1] = "to" -> <<w[1], w[1] + o[3]>>
                 [] o[1] = "from" -> <<w[1] + o[3], w[2]>>
                 [] OTHER -> w
MNext == /\ Len(hist) < N /\ UNCHANGED base
         /\ \E i \in {1, Len(views)} : \E o \in Ops(i) :
               /\ Take(o) /\ hist' = Append(hist, o)
               /\ IF Can(o) THEN where' = Append(where, Place(o)) /\ from' = Append(from, i) ELSE UNCHANGED <<where, from>>
MSpec == MInit /\ [][MNext]_mvars
Stands == \A i \in 1..Len(views) : /\ views[i] = SubSeq(base, where[i][1] + 1, where[i][2])
                                   /\ where[i][1] <= where[i][2]
                                   /\ i > 1 => /\ where[i][1] >= where[from[i]][1]
                                               /\ where[i][2] <= where[from[i]][2]
(* what is found is there, and nothing is found earlier; a view begins with its parts *)
Questions == \A i \in 1..Len(views) : LET v == views[i]
             IN /\ \A a, b \in 0..Len(v) : a < b => At(v, Part(v, a, b), Find(v, Part(v, a, b))) /\ Find(v, Part(v, a, b)) <= a
                /\ \A b \in 0..Len(v) : Begins(v, Part(v, 0, b), Equal) = "ok" /\ (b < Len(v) => Begins(Part(v, 0, b), v, Equal) = "incomplete")
                /\ \A k \in 1..Len(v) : Begins(v, [j \in 1..k |-> Lower(v[j])], NoCase) = "ok"
Emit == EmitIt /\ Len(hist) = N => PrintT(<<"HIST", ToJson(<<base, hist>>)>>)
=============================================================================

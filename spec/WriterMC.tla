------------------------------ MODULE WriterMC ------------------------------
(* A writer that offers the value piece by piece and tries again what was not taken, over
   every output: all schedules of up to N answers.  Each schedule is printed, and replayed on
   the real writers. *)
EXTENDS Writer, TLC, Json
CONSTANTS N, Lens, EmitIt

VARIABLES pieces, script, all
mvars == <<wvars, pieces, script, all>>

RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
(* pieces of the lengths given, numbered through *)
RECURSIVE Cut(_, _)
Cut(ls, from) == IF ls = <<>> THEN <<>>
                 ELSE <<[k \in 1..Head(ls) |-> from + k]>> \o Cut(Tail(ls), from + Head(ls))
MInit == \E ls \in Lens : LET ps == Cut(ls, 0) IN pieces = ps /\ all = Flat(ps) /\ WInit(Flat(ps)) /\ script = <<>>

Answers == {"1", "2", "a", "i", "z", "e"}
Cur == Head(pieces)
Least(a, b) == IF a < b THEN a ELSE b
Took(a) == CASE a = "1" -> 1 [] a = "2" -> Least(2, Len(Cur)) [] OTHER -> Len(Cur)
Skip == /\ did = "" /\ pieces # <<>> /\ Cur = <<>> /\ pieces' = Tail(pieces) /\ UNCHANGED <<wvars, script, all>>
Offer(a) == /\ did = "" /\ ~bad /\ pieces # <<>> /\ Cur # <<>> /\ Len(script) < N
            /\ script' = Append(script, a) /\ UNCHANGED all
            /\ CASE a = "i" -> Interrupt /\ UNCHANGED pieces
                 [] a \in {"z", "e"} -> Fault /\ UNCHANGED pieces
                 [] OTHER -> /\ Take(SubSeq(Cur, 1, Took(a)))
                             /\ pieces' = <<SubSeq(Cur, Took(a) + 1, Len(Cur))>> \o Tail(pieces)
(* after the script the output takes all it is offered *)
Rest == /\ did = "" /\ ~bad /\ pieces # <<>> /\ Cur # <<>> /\ Len(script) = N
        /\ Take(Cur) /\ pieces' = Tail(pieces) /\ UNCHANGED <<script, all>>
Stop == /\ did = "" /\ (bad \/ pieces = <<>>) /\ Finish(IF bad THEN "err" ELSE "ok") /\ UNCHANGED <<pieces, script, all>>
MNext == Skip \/ Rest \/ Stop \/ \E a \in Answers : Offer(a)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Skip \/ Rest \/ Stop \/ \E a \in Answers : Offer(a))

Faulted == \E k \in 1..Len(script) : script[k] \in {"z", "e"}
Whole == did = "ok" => due = <<>> /\ ~Faulted
Told == did = "err" <=> did # "" /\ Faulted
InOrder == \E k \in 0..Len(all) : due = SubSeq(all, k + 1, Len(all))
Aligned == due = Flat(pieces)
Ends == <>(did # "")
Emit == EmitIt /\ did # "" => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================

------------------------------- MODULE DataMC -------------------------------
(* The body decoder of Session (fed byte by byte) and an encoder against the definitions of
   Data, for all strings over an alphabet up to a length.                                 *)
EXTENDS Data, TLC
CONSTANTS N, Alpha

(* the decoder, as in Session *)
D == INSTANCE Session WITH CfgOf <- LAMBDA i : [silent |-> FALSE], cid <- 0, rx <- 0, eof <- 0, pc <- 0, cur <- 0,
        txn <- 0, exp <- 0, cause <- 0, got <- 0, unfl <- 0, dead <- 0, ended <- 0, u <- 0, bs <- 0,
        dec <- 0, fin <- 0

VARIABLES b, st, out, over, es, enc     \* input so far; decoder: state, output, bytes after the end; encoder
vars == <<b, st, out, over, es, enc>>

Init == b = <<>> /\ st = "S" /\ out = <<>> /\ over = <<>> /\ es = "S" /\ enc = <<>>
Next == /\ Len(b) < N
        /\ \E c \in Alpha :
             /\ b' = Append(b, c)
             /\ IF st = "F" THEN over' = Append(over, c) /\ UNCHANGED <<st, out>>
                ELSE st' = D!StepState(st, c) /\ out' = out \o D!StepOut(st, c) /\ UNCHANGED over
             /\ enc' = enc \o (IF es = "S" /\ c = DOT THEN <<DOT, c>> ELSE <<c>>)
             /\ es' = IF c = CR THEN "C" ELSE IF es = "C" /\ c = LF THEN "S" ELSE "M"
Spec == Init /\ [][Next]_vars

WireOut == enc \o (IF es = "S" THEN <<>> ELSE CRLF) \o <<DOT>> \o CRLF

DecoderFinds == (st = "F") = HasMarker(b)
DecoderRight == st = "F" => out = Message(b) /\ over = AfterMarker(b)
DecoderPrefix == st # "F" => out = CertainOf(b)
(* whatever the decoder gave out stays right, however the input goes on *)
EncoderRight == WireOut = Wire(b)
RoundTrip == LET w == WireOut
             IN /\ HasMarker(w) /\ AfterMarker(w) = <<>>
                /\ Message(w) = b \o (IF EndsLine(b) THEN <<>> ELSE CRLF)
=============================================================================

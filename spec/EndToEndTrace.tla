--------------------------- MODULE EndToEndTrace ---------------------------
(* Judges recorded conversations between the library's client side and the real server. *)
EXTENDS EndToEnd, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE i

Box0(a) == IF a = <<>> THEN [lo |-> <<>>, hk |-> "none", h |-> <<>>]
           ELSE LET b == Mailbox(a) IN [lo |-> b.lo, hk |-> b.hk, h |-> b.h]
SameMail(x, y) == /\ Box0(x.f) = Box0(y.f)
                  /\ Len(x.t) = Len(y.t) /\ \A k \in 1..Len(x.t) : Box0(x.t[k]) = Box0(y.t[k])
Common(a, b) == LET S == {k \in 0..Len(a) : k <= Len(b) /\ Take(a, k) = Take(b, k)}
                IN CHOOSE k \in S : \A j \in S : j <= k

Bad(r) ==
    LET e == Expected(r.cfg, r.mode, r.msgs)
        n == IF Len(e.handed) < Len(r.handed) THEN Len(e.handed) ELSE Len(r.handed)
        bad(F(_, _)) == \E k \in 1..n : ~F(e.handed[k], r.handed[k])
        box(x, y) == SameMail(x, y)
        body(x, y) == x.b = y.b
        done(x, y) == x.ok = y.ok
    IN CASE bad(box) -> "envelope-differs"
         [] bad(body) -> "body-differs"
         [] bad(done) -> "completeness-differs"
         [] Len(r.handed) > Len(e.handed) -> "message-invented"
         [] r.k # "ok" -> r.k
         [] Len(r.handed) < Len(e.handed) -> "message-lost"
         [] r.told # e.told -> "told-differs"
         [] OTHER -> ""
Init == i \in 1..Len(Recs) /\ (LET w == Bad(Recs[i])
                               IN w = "" \/ PrintT(<<"BAD", i, w, Common(Expected(Recs[i].cfg, Recs[i].mode, Recs[i].msgs).told, Recs[i].told)>>))
Next == FALSE /\ UNCHANGED i
=============================================================================

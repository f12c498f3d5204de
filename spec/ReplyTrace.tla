----------------------------- MODULE ReplyTrace -----------------------------
(* Judges what the real reply-line parser, builder and writer and the server's replies gave.
   l: in, k (ok/err/panic), w written, n its stated length, k2/w2/n2 the same of parsing w.
   b: code, last, text, and the same.   s: code, text, w everything sent, open unflushed.  *)
EXTENDS Grammar, Codes, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE i

Clean(t) == \A j \in 1..Len(t) : t[j] \in ReplyText
Again(r) == CASE r.k2 = "panic" -> "panic"
              [] r.k2 # "ok" -> "not-read-back"
              [] r.w2 # r.w \/ r.n2 # r.n -> "read-back-differs"
              [] r.n # Len(r.w) -> "length"
              [] OTHER -> ""
LineBad(r) ==
    CASE r.k = "panic" -> "panic"
      [] r.k = "ok" /\ ~IsReplyLine(r.in) -> "accepted"
      [] r.k = "err" /\ IsReplyLine(r.in) -> "rejected"
      [] r.k = "ok" /\ r.w # r.in -> "written-differs"
      [] r.k = "ok" -> Again(r)
      [] OTHER -> ""
BuildBad(r) ==
    LET ok == Len(r.text) <= MaxText /\ Clean(r.text)
    IN CASE r.k = "panic" -> "panic"
         [] r.k = "ok" /\ ~ok -> "built"
         [] r.k = "err" /\ ok -> "not-built"
         [] r.k = "ok" /\ r.w # ReplyLine(r.code, r.last, r.text) -> "built-line-differs"
         [] r.k = "ok" -> Again(r)
         [] OTHER -> ""
SendBad(r) ==
    CASE r.k # "ok" -> r.k
      [] ~IsReply(r.w, r.code, r.text) -> "malformed-reply"
      [] r.open -> "not-flushed"
      [] OTHER -> ""
(* n: a named code: its number, the line built with it, what the client is sent when a filter
   refuses with it.   u: a number asked for as a custom code. *)
NamedBad(r) ==
    CASE r.k # "ok" -> r.k
      [] r.name \notin Names -> "unknown-name"
      [] r.code # Named[r.name] -> "number-differs"
      [] r.w # (IF Len(r.text) <= MaxText THEN ReplyLine(Named[r.name], TRUE, r.text) ELSE <<>>) -> "built-line-differs"
      [] ~IsReply(r.sent, Named[r.name], r.text) -> "sent-differs"
      [] OTHER -> ""
CustomBad(r) ==
    CASE r.code < 1000 /\ r.k # "ok" -> "custom-refused"
      [] r.code < 1000 /\ (r.got # r.code \/ r.w # ReplyLine(r.code, TRUE, r.text)) -> "custom-differs"
      [] r.code >= 1000 /\ r.k = "ok" -> "custom-made"
      [] OTHER -> ""
(* d: a default reply of a configuration; the greeting starts with the host's name *)
DefaultBad(r) ==
    CASE r.name \notin DOMAIN Situations -> "unknown-situation"
      [] r.code # Named[Situations[r.name]] -> "number-differs"
      [] ~Clean(r.text) -> "cannot-be-sent"
      [] r.name = "greet" /\ r.text # r.host /\ Take(r.text, Len(r.host) + 1) # r.host \o <<SP>> -> "greeting-without-name"
      [] OTHER -> ""
Bad(r) == CASE r.t = "n" -> NamedBad(r) [] r.t = "d" -> DefaultBad(r) [] r.t = "u" -> CustomBad(r) [] r.t = "l" -> LineBad(r) [] r.t = "b" -> BuildBad(r) [] OTHER -> SendBad(r)
Init == i \in 1..Len(Recs) /\ (LET w == Bad(Recs[i]) IN w = "" \/ PrintT(<<"BAD", i, w>>))
Next == FALSE /\ UNCHANGED i
=============================================================================

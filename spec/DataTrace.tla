----------------------------- MODULE DataTrace -----------------------------
(* Judges what the real DataStream and DataSink did with whole inputs. *)
EXTENDS Data, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE i

(* stream: in, out (the body given), ok (complete() succeeded), rest (what the source gave
   afterwards), again (source polled after its end), k: panic/hang/stuck or "" *)
StreamBad(r) ==
    CASE r.k # "" -> r.k
      [] HasMarker(r.in) ->
            (CASE ~r.ok -> "complete-said-cut-off"
               [] r.out # Message(r.in) -> "body-differs"
               [] r.rest # AfterMarker(r.in) -> "rest-differs"
               [] OTHER -> "")
      [] OTHER ->
            (CASE r.ok -> "cut-off-said-complete"
               [] ~IsPrefixUpToRun(r.out, CertainOf(r.in)) -> "cut-off-body-differs"
               [] r.rest # <<>> -> "rest-after-cut-off"
               [] OTHER -> "")
(* sink: in, out (all that was sent), err (an error came back), fault (the output failed),
   after (something was sent after it failed) *)
SinkBad(r) ==
    CASE r.k # "" -> r.k
      [] r.fault /\ ~r.err -> "error-not-returned"
      [] r.fault /\ r.after -> "sent-after-error"
      [] ~r.fault /\ r.err -> "error-invented"
      [] r.fault -> IF IsPrefixUpToRun(r.out, Wire(r.in)) THEN "" ELSE "wire-differs"
      [] r.out # Wire(r.in) -> "wire-differs"
      [] r.unfl -> "not-flushed"
      [] OTHER -> ""

Bad(r) == IF r.t = "stream" THEN StreamBad(r) ELSE SinkBad(r)
Init == i \in 1..Len(Recs) /\ (LET w == Bad(Recs[i]) IN w = "" \/ PrintT(<<"BAD", i, w>>))
Next == FALSE /\ UNCHANGED i
=============================================================================

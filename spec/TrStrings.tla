----------------------------- MODULE TrStrings -----------------------------
(* Conformance of the conversions between types and Python strings. *)
EXTENDS PyStrings, TraceBase
StrOk(e) ==
  LET m == Meaning(e.tokens)
  IN CASE m.kind = "open" -> TRUE
       [] m.kind = "refused" -> e.outcome = "refused"
       [] OTHER -> e.outcome = "type" /\ WellFormed(e.got) /\ Denotes(e.got) = m.type
PyOk(e) == e.outcome = "type" /\ WellFormed(e.got) /\ Denotes(e.got) = Denotes(e.t)
StringsVerdict(e) ==
  CASE e.op = "str" -> IF StrOk(e) THEN "ok" ELSE "meaning of a string"
    [] e.op = "py" -> IF PyOk(e) THEN "ok" ELSE "string round trip"
    [] OTHER -> "unknown event"
=============================================================================

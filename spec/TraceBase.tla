----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of a trace of independent events recorded from the code.     *)
(* The trace is cut into chains; each chain is one behaviour that consumes *)
(* its events in order.  Verdict(e) is "ok" when the specification allows  *)
(* the event, otherwise the reason why not.  The number of distinct states *)
(* is events + chains exactly if every event was consumed.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

Events == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
NEvents == Len(Events)
NChains == IF NEvents < 64 THEN NEvents ELSE 64

(* the reader of the verdicts must find this one, or it would miss others too *)
ASSUME PrintT("REJECT 0 this verdict is longer than a line of output usually is, and still has to be read as one; it ends here")

VARIABLES trAt, trEnd, trBad
TrInit == \E c \in 0..(NChains - 1) :
            /\ trAt = (c * NEvents) \div NChains
            /\ trEnd = ((c + 1) * NEvents) \div NChains
            /\ trBad = 0
TrNext ==
  /\ trAt < trEnd
  /\ trAt' = trAt + 1
  /\ trEnd' = trEnd
  /\ LET verd == Verdict(Events[trAt + 1])
     IN trBad' = IF verd = "ok" THEN trBad
                 ELSE IF PrintT("REJECT " \o ToString(trAt + 1) \o " " \o verd) THEN trBad + 1 ELSE trBad + 1
TrSpec == TrInit /\ [][TrNext]_<<trAt, trEnd, trBad>>
=============================================================================

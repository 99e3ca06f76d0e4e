------------------------------ MODULE GenPyLife ----------------------------
(* Histories for replay: those that end with somebody outliving something. *)
EXTENDS PyLife, Json
LfDrops == Cardinality({n \in 1..Len(lfSteps) : lfSteps[n][1] \in {"droprule", "dropiter", "droppoint", "write"}
                         \/ (lfSteps[n][1] \in {"rule", "iter"} /\ \E m \in 1..(n - 1) : lfSteps[m][1] = lfSteps[n][1])})
LfShow == (Len(lfSteps) = LfLen /\ LfDrops > 0) => PrintT("H " \o ToJson(lfSteps))
=============================================================================

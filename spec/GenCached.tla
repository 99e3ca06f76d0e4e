----------------------------- MODULE GenCached -----------------------------
(* Enumerates histories of two registers; every history ends at a state     *)
(* whose two registers are then asked everything.                          *)
EXTENDS Cached, Json
CONSTANTS CLen, CStartSets
VARIABLES gcSteps, gcStart
GCInit == gcSteps = <<>> /\ gcStart \in CStartSets /\ cgReg = CStart(gcStart)
GCNext == /\ Len(gcSteps) < CLen
          /\ \E s \in COps : gcSteps' = Append(gcSteps, s) /\ cgReg' = CStep(cgReg, s)
          /\ gcStart' = gcStart
GCSpec == GCInit /\ [][GCNext]_<<gcSteps, gcStart, cgReg>>
GCShow == Len(gcSteps) = CLen => PrintT("H " \o ToJson(<<gcStart, gcSteps>>))
GCStart1 == {<<1, 3>>}
GCStarts == {<<1, 2>>, <<1, 3>>}
=============================================================================

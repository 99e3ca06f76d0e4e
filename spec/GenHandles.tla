----------------------------- MODULE GenHandles ----------------------------
(* Enumerates histories of handle operations. *)
EXTENDS Handles, Json
CONSTANTS HDim, HIds, HRegs, HLen, HPaths
VARIABLES ghSteps, ghReg
GHInit == ghSteps = <<>> /\ ghReg = HStart(HRegs)
Ops == {<<0, h, i, p>> : h \in 0..(HRegs - 1), i \in HIds, p \in HPaths}
       \cup {<<1, h, g>> : h \in 0..(HRegs - 1), g \in 0..(HRegs - 1)}
       \cup {<<2, h>> : h \in 0..(HRegs - 1)}
       \cup {<<3, h, g>> : h \in 0..(HRegs - 1), g \in 0..(HRegs - 1)}
       \cup {<<4, h, g>> : h \in 0..(HRegs - 1), g \in 0..(HRegs - 1)}
GHNext == /\ Len(ghSteps) < HLen
          /\ \E s \in Ops : ghSteps' = Append(ghSteps, s) /\ ghReg' = HStep(ghReg, s)
GHSpec == GHInit /\ [][GHNext]_<<ghSteps, ghReg>>
GHShow == Len(ghSteps) = HLen => PrintT("H " \o ToJson(<<HDim, HRegs, ghSteps>>))
GHType == \A h \in 1..HRegs : ghReg[h] \in HIds \cup {HEmpty}
=============================================================================

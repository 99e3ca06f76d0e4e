------------------------------- MODULE GenVal ------------------------------
(* Enumerates histories of two registers that hold the values 1 and 2;      *)
(* in the end all that is left is asked everything.                        *)
EXTENDS ValStore, Json, TLC
CONSTANTS VGLen, VGAsks
VARIABLES vgReg, vgSteps
VGInit == vgReg = <<1, 2>> /\ vgSteps = <<>>
VGNext == /\ Len(vgSteps) < VGLen
          /\ \E s \in VOps({1, 2}, {3}, VGAsks) :
               VMay(vgReg, s) /\ vgReg' = VAfter(vgReg, s) /\ vgSteps' = Append(vgSteps, s)
VGSpec == VGInit /\ [][VGNext]_<<vgReg, vgSteps>>
VGAlive == \E r \in {1, 2} : VLive(vgReg[r])
VGShow == Len(vgSteps) = VGLen /\ VGAlive => PrintT("H " \o ToJson(vgSteps))
=============================================================================

------------------------------ MODULE ValParts -----------------------------
(***************************************************************************)
(* Objects made of parts, some of which are only filled by a question.     *)
(* Copies and moves carry every part; then the objects answer like the     *)
(* values of ValStore after every history.  (With a part that assignments  *)
(* leave behind, VPLeft, TLC finds a wrong answer after one step; with a    *)
(* remembered part left behind, after two.)                                *)
(***************************************************************************)
EXTENDS ValStore, TLC
CONSTANTS VPRegs, VPValues, VPParts, VPLeft
VARIABLES vpReg, vpObj
Memo == VPParts + 1
VPFresh(v) == [p \in 1..Memo |-> IF p = Memo THEN 0 ELSE v]
VPHollow == [p \in 1..Memo |-> 0]
VPAssign(a, b) == [p \in 1..Memo |-> IF p \in VPLeft THEN a[p] ELSE b[p]]
VPAnswer(o, q) == IF q = Memo THEN (IF o[Memo] # 0 THEN o[Memo] ELSE o[1]) ELSE o[q]
VPDo(obj, s) ==
  CASE s[1] = 0 -> [obj EXCEPT ![s[2]] = VPFresh(s[3])]
    [] s[1] = 1 -> [obj EXCEPT ![s[2]] = VPAssign(@, VPFresh(s[3]))]
    [] s[1] = 2 -> [obj EXCEPT ![s[2]] = obj[s[3]]]
    [] s[1] = 3 -> [obj EXCEPT ![s[2]] = VPAssign(@, obj[s[3]])]
    [] s[1] = 4 -> [obj EXCEPT ![s[2]] = obj[s[3]], ![s[3]] = VPHollow]
    [] s[1] = 5 -> [obj EXCEPT ![s[2]] = VPAssign(@, obj[s[3]]), ![s[3]] = VPHollow]
    [] s[1] = 6 -> [obj EXCEPT ![s[2]] = obj[s[3]], ![s[3]] = obj[s[2]]]
    [] s[1] = 7 -> IF s[3] = Memo THEN [obj EXCEPT ![s[2]] = [@ EXCEPT ![Memo] = VPAnswer(obj[s[2]], Memo)]] ELSE obj
    [] s[1] = 8 -> [obj EXCEPT ![s[2]] = VPHollow]
VPInit == vpReg = [r \in VPRegs |-> VNone] /\ vpObj = [r \in VPRegs |-> VPHollow]
VPNext == \E s \in VOps(VPRegs, VPValues, 1..Memo) :
            VMay(vpReg, s) /\ vpReg' = VAfter(vpReg, s) /\ vpObj' = VPDo(vpObj, s)
VPSpec == VPInit /\ [][VPNext]_<<vpReg, vpObj>>
LikeValues == \A r \in VPRegs : VLive(vpReg[r]) => \A q \in 1..Memo : VPAnswer(vpObj[r], q) = vpReg[r]
=============================================================================

------------------------------- MODULE GenIters ----------------------------
(* Enumerates histories of registers; one in GiOneIn successors is taken.  *)
EXTENDS IterOps, TLC, Json, SequencesExt
CONSTANTS GiRegs, GiLast, GiLen, GiOneIn
VARIABLES giSteps, giAt
GiInit == giSteps = <<>> /\ giAt = [r \in 1..GiRegs |-> 0]
GiHash == FoldLeft(LAMBDA h, s : (h * 31 + s[1] * 7 + s[2] * 5 + s[3] * 3) % 10007, 17, giSteps)
GiTake(s) == (GiHash * 13 + s[1] * 11 + s[2] * 29 + s[3] * 17) % GiOneIn = 0
GiNext == /\ Len(giSteps) < GiLen
          /\ \E s \in IterOpsOf(GiRegs) :
               /\ IterMay(giAt, GiLast, s) /\ GiTake(s)
               /\ giSteps' = Append(giSteps, s)
               /\ giAt' = IterStep(giAt, GiLast, s[1], s[2], s[3])
GiSpec == GiInit /\ [][GiNext]_<<giSteps, giAt>>
GiShow == Len(giSteps) = GiLen =>
  PrintT("H " \o ToJson(<<GiLast, GiRegs>> \o FlattenSeq([k \in 1..GiLen |-> <<giSteps[k][1], giSteps[k][2] - 1, giSteps[k][3] - 1>>])))
=============================================================================

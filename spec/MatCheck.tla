------------------------------ MODULE MatCheck -----------------------------
(***************************************************************************)
(* The laws the oracle for the matrix kernels rests on, for every integer  *)
(* matrix with small entries: matrices grow entry by entry.                *)
(***************************************************************************)
EXTENDS MatAlg
CONSTANTS MCRows, MCCols, MCBound
VARIABLES mcShape, mcEntries
MCInit == mcShape \in (1..MCRows) \X (1..MCCols) /\ mcEntries = <<>>
MCDone == Len(mcEntries) = mcShape[1] * mcShape[2]
MCNext == ~MCDone /\ \E v \in -MCBound..MCBound : mcEntries' = Append(mcEntries, v) /\ mcShape' = mcShape
MCSpec == MCInit /\ [][MCNext]_<<mcShape, mcEntries>>
MCMat == TLCEval([i \in 1..mcShape[1] |-> [j \in 1..mcShape[2] |-> mcEntries[(i - 1) * mcShape[2] + j]]])
(* Gram determinant = sum of squared minors; it vanishes with any zero row *)
CauchyBinet ==
  MCDone /\ mcShape[1] <= mcShape[2] =>
    LET G == IMul(MCMat, ITrans(MCMat)) IN
    /\ GramBig(MCMat, mcShape[2]) = BigNat(IDet(G))
    /\ ZeroRow(MCMat) => IDet(G) = 0
(* the pseudo-inverse is a right inverse, and its product the other way round is symmetric *)
PseudoInverse ==
  MCDone /\ mcShape[1] <= mcShape[2] =>
    LET A == MCMat
        G == IMul(A, ITrans(A))
        d == IDet(G)
        P == IMul(ITrans(A), Adj(G))                   \* d times the inverse
        S == IMul(P, A)
    IN d # 0 => /\ IMul(A, P) = [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN d ELSE 0]]
                /\ \A i, j \in 1..Len(S) : S[i][j] = S[j][i]
(* determinants multiply; transposition keeps them *)
DetLaws ==
  MCDone /\ mcShape[1] = mcShape[2] =>
    LET d == IDet(MCMat) IN
    /\ IDet(ITrans(MCMat)) = d
    /\ IDet(IMul(MCMat, ITrans(MCMat))) = d * d
    /\ IMul(MCMat, Adj(MCMat)) = [i \in 1..Len(MCMat) |-> [j \in 1..Len(MCMat) |-> IF i = j THEN d ELSE 0]]
=============================================================================

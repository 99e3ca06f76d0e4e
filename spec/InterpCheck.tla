---------------------------- MODULE InterpCheck ----------------------------
(* Every grid point of every reference cell is a state; the invariants are  *)
(* what makes the interpolation the one a mesh needs.                      *)
EXTENDS Interp
CONSTANT GridDen
VARIABLES icWord, icNum
ICPoint == [a \in 1..Len(icWord) |-> Rat(icNum[a], GridDen)]
Normal1(w) == w = <<>> \/ w[1] = 0
ICInit == icWord = <<>> /\ icNum = <<>>
ICGrow == /\ Len(icWord) < MaxDim /\ \A a \in 1..Len(icNum) : icNum[a] = 0
          /\ icWord' \in {Append(icWord, s) : s \in IF icWord = <<>> THEN {0} ELSE {0, 1}}
          /\ icNum' = Append(icNum, 0)
ICMove == \E a \in 1..Len(icNum) :
            /\ icNum' = [icNum EXCEPT ![a] = @ + 1]
            /\ Inside(icWord, icNum', GridDen)
            /\ icWord' = icWord
ICNext == ICGrow \/ ICMove
ICSpec == ICInit /\ [][ICNext]_<<icWord, icNum>>

ICShape == Shape(icWord, ICPoint)
ICUnity == RSum([k \in 1..Len(ICShape) |-> ICShape[k].val]) = ROne
ICConvex == LET S == TLCEval(ICShape) IN \A k \in 1..Len(S) : S[k].val[1] >= 0
ICReproduce == LET S == TLCEval(ICShape) IN
  icWord # <<>> =>
    /\ InterpValue(S, RefCorners(icWord)) = ICPoint
    /\ InterpJacT(S, RefCorners(icWord)) = [j \in 1..Len(icWord) |-> [a \in 1..Len(icWord) |-> RInt(UnitVec(Len(icWord), j)[a])]]
(* at a corner: that corner's function is one, the others vanish *)
ICNodal == LET S == TLCEval(ICShape) IN
  \A k \in 1..Len(S) : (\A a \in 1..Len(icWord) : icNum[a] = GridDen * Corners[icWord][k][a]) => S[k].val = ROne
(* on a facet: the facet's own interpolation, so neighbours agree *)
ICTrace == LET S == TLCEval(ICShape) IN
  icWord # <<>> =>
  \A f \in 0..(Size(icWord, 1) - 1) :
    LET cell == CellOf(icWord, f, 1)
        n == Normals[icWord][f + 1]
        p0 == FacetPoint[icWord][f + 1]
        d == Len(icWord)
        on == IDot(n, [a \in 1..d |-> icNum[a] - GridDen * p0[a]]) = 0
    IN on =>
       /\ \A k \in 1..Len(S) : (k - 1) \notin VSet(cell) => S[k].val = RZero
       /\ LET (* local coordinates in the facet: invert the embedding on the grid *)
              E == Embedding(icWord, f, 1)
              o == CellCorners(icWord, f, 1)[1]
              loc == {y \in [1..(d - 1) -> 0..GridDen] :
                        \A a \in 1..d : GridDen * o[a] + SumSeq([j \in 1..(d - 1) |-> y[j] * E[j][a]]) = icNum[a]}
          IN /\ Cardinality(loc) = 1
             /\ LET y == CHOOSE y \in loc : TRUE
                    F == TLCEval(Shape(cell.w, [j \in 1..(d - 1) |-> Rat(y[j], GridDen)]))
                IN \A k \in 1..Len(F) : F[k].val = S[cell.v[k] + 1].val
=============================================================================

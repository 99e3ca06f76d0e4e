------------------------------ MODULE TopoKeep -----------------------------
(* The keeping factory over all histories; with Show, prints them. *)
EXTENDS TopoStore, Json
CONSTANTS TkDim, TkKeys, TkFaces, TkLen, TkOneIn, TkShow
VARIABLES tkAsked, tkState
TkVars == <<tkAsked, tkState>>
TkRequests == {<<f, i, k>> : f \in TkFaces, i \in 0..(2^TkDim - 1), k \in TkKeys}
TkInit == tkAsked = <<>> /\ tkState = TsEmpty
TkHash == FoldLeft(LAMBDA h, r : (h * 31 + r[1] * 7 + r[2] * 5 + r[3] * 3) % 10007, 17, tkAsked)
TkTake(r) == (TkHash * 13 + r[1] * 11 + r[2] * 29 + r[3] * 17) % TkOneIn = 0
TkNext == /\ Len(tkAsked) < TkLen
          /\ \E r \in TkRequests : TkTake(r) /\ tkAsked' = Append(tkAsked, r) /\ tkState' = TsStep(tkState, r)
TkSpec == TkInit /\ [][TkNext]_TkVars
TkUnique == \A m, n \in 1..Len(tkState.made) : m # n => tkState.made[m] # tkState.made[n]
TkRight == \A i \in 1..Len(tkAsked) : tkState.out[i] > 0 => tkState.made[tkState.out[i]] = <<Shape(tkAsked[i][2]), tkAsked[i][3]>>
TkSame == \A i, j \in 1..Len(tkAsked) :
  (tkState.out[i] > 0 /\ tkState.out[j] > 0) =>
    ((tkState.out[i] = tkState.out[j]) <=> (Shape(tkAsked[i][2]) = Shape(tkAsked[j][2]) /\ tkAsked[i][3] = tkAsked[j][3]))
TkNeeded == \A n \in 1..Len(tkState.made) : \E i \in 1..Len(tkAsked) :
  Shape(tkAsked[i][2]) = tkState.made[n][1] /\ (tkAsked[i][3] = tkState.made[n][2] \/ (tkAsked[i][3] = 3 /\ tkState.made[n][2] = 0))
TkStable == [][SubSeq(tkState'.made, 1, Len(tkState.made)) = tkState.made]_TkVars
TkPrint == (TkShow /\ Len(tkAsked) = TkLen) => PrintT("H " \o ToJson(<<TkDim>> \o FlattenSeq(tkAsked)))
=============================================================================

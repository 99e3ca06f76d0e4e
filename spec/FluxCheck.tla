------------------------------ MODULE FluxCheck ----------------------------
(* Integration by parts on the exact maps: the fluxes of a field through the *)
(* facets add up to the integral of its divergence, and the work along every *)
(* edge is the difference of the values at its ends.                         *)
EXTENDS Flux
CONSTANTS FxDegree, FxBent
VARIABLES fxWord, fxMap, fxExp, fxDir
Frames == <<<<<<2, 1, 0, 0>>, <<-1, 3, 0, 0>>, <<0, 1, 2, 0>>, <<1, 0, 0, 1>>>>,
            <<<<0, 1, 0, 1>>, <<2, 0, 1, 0>>, <<0, -1, 2, 0>>, <<0, 0, 1, -2>>>>>>
Shift == <<1, -1, 2, 0>>
Bumps == <<<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 1, 1>>, <<1, 0, 0, 0>>, <<0, 1, 0, 1>>, <<0, 0, -1, 0>>>>
CornersOfMap(w, s) ==
  LET m == Len(w) IN
  CASE s = 0 -> Corners[w]
    [] s \in {1, 2} -> TLCEval([j \in 1..Len(Corners[w]) |-> [a \in 1..m |->
          Shift[a] + SumSeq([k \in 1..m |-> Corners[w][j][k] * Frames[s][k][a]])]])
    [] OTHER -> TLCEval([j \in 1..Len(Corners[w]) |-> [a \in 1..m |->
          3 * Corners[w][j][a] + Bumps[1 + ((j * s) % 8)][a]]])
FxAllowed(w, s) == IF s > 2 THEN Len(w) <= FxBent /\ IsPoly(w, CornersOfMap(w, s)) ELSE TRUE
FxMaps == 0..5
FxInit == \E w \in AllWords \ {<<>>} : \E s \in FxMaps : \E k \in 1..Len(w) :
            /\ FxAllowed(w, s)
            /\ fxWord = w /\ fxMap = s /\ fxExp = ExZero(Len(w)) /\ fxDir = k
FxNext == /\ SumSeq(fxExp) < (IF fxMap > 2 /\ Len(fxWord) > 2 THEN Min2(FxDegree, 2) ELSE FxDegree)
          /\ \E k \in 1..Len(fxWord) : fxExp' = Raise(fxExp, k)
          /\ UNCHANGED <<fxWord, fxMap, fxDir>>
FxSpec == FxInit /\ [][FxNext]_<<fxWord, fxMap, fxExp, fxDir>>
Gauss ==
  LET w == fxWord
      Y == MapPoly(w, CornersOfMap(w, fxMap))
      J == PJacobian(Y, Len(w))
  IN RSum([i \in 1..Size(w, 1) |-> FacetFlux(w, Y, J, fxExp, fxDir, i - 1)]) = VolumeOf(w, Y, J, fxExp, fxDir)
Ends ==
  LET w == fxWord
      Y == MapPoly(w, CornersOfMap(w, fxMap))
  IN fxDir = 1 => \A i \in 1..Size(w, Len(w) - 1) : EdgeWork(w, Y, fxExp, i - 1) = RInt(EdgeRise(w, Y, fxExp, i - 1))
(* the map takes every corner to its place *)
Places ==
  LET w == fxWord
      C == CornersOfMap(w, fxMap)
      Y == MapPoly(w, C)
  IN SumSeq(fxExp) = 0 => \A j \in 1..Len(C) : ValueAt(Y, Corners[w][j]) = C[j]
=============================================================================

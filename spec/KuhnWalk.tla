------------------------------ MODULE KuhnWalk -----------------------------
(***************************************************************************)
(* The subdivision of a simplex into n^d congruent ones, as a walk: a      *)
(* state is a small simplex y, y+e(p1), y+e(p1)+e(p2), ... inside of       *)
(* n >= x1 >= ... >= xd >= 0, a step crosses a facet.  The walk reaches    *)
(* all n^d of them; a generic point of a state tells the state, so they    *)
(* do not overlap; every facet leads to a neighbour or is on the boundary. *)
(***************************************************************************)
EXTENDS Lattice
CONSTANTS KDims, KMaxN
VARIABLES kwD, kwN, kwY, kwP
kwVars == <<kwD, kwN, kwY, kwP>>
KIndices(d) == 1..d
KVertex(y, p, k) == [i \in 1..Len(y) |-> y[i] + (IF \E j \in 1..k : p[j] = i THEN 1 ELSE 0)]
KCorners(y, p) == TLCEval([k \in 1..(Len(y) + 1) |-> KVertex(y, p, k - 1)])
KInside(d, n, y, p) == \A k \in 0..d : LET x == KVertex(y, p, k) IN
  x[1] <= n /\ x[d] >= 0 /\ \A i \in 1..(d - 1) : x[i] >= x[i + 1]
KInit == /\ kwD \in KDims /\ kwN \in 1..KMaxN
         /\ kwY = [i \in KIndices(kwD) |-> 0] /\ kwP = [i \in KIndices(kwD) |-> i]
Cross(d, y, p, k) ==
  IF k = 0 THEN <<[y EXCEPT ![p[1]] = @ + 1], [i \in 1..d |-> IF i = d THEN p[1] ELSE p[i + 1]]>>
  ELSE IF k = d THEN <<[y EXCEPT ![p[d]] = @ - 1], [i \in 1..d |-> IF i = 1 THEN p[d] ELSE p[i - 1]]>>
  ELSE <<y, [p EXCEPT ![k] = p[k + 1], ![k + 1] = p[k]]>>
KNext == /\ \E k \in 0..kwD : LET q == Cross(kwD, kwY, kwP, k) IN
              KInside(kwD, kwN, q[1], q[2]) /\ kwY' = q[1] /\ kwP' = q[2]
         /\ UNCHANGED <<kwD, kwN>>
KSpec == KInit /\ [][KNext]_kwVars
(* to the reference simplex: differences of successive coordinates *)
Shear(x) == [i \in 1..Len(x) |-> IF i = Len(x) THEN x[i] ELSE x[i] - x[i + 1]]
KWord == [k \in 1..kwD |-> 0]
KImage == TLCEval([k \in 1..(kwD + 1) |-> Shear(KCorners(kwY, kwP)[k])])
KUnit == Abs(IDet(EdgesOf(KCorners(kwY, kwP)))) = 1 /\ Abs(IDet(EdgesOf(KImage))) = 1
KIn == \A k \in 1..(kwD + 1) : InCell(KWord, KImage[k], kwN)
(* point y + (d+1-j)/(d+2) in direction p(j): floor and the order of the fractions give the state back *)
KLocate == LET d == kwD
               q == [i \in 1..d |-> (d + 2) * kwY[i] + (d + 1 - (CHOOSE j \in 1..d : kwP[j] = i))]
           IN /\ \A i \in 1..d : q[i] \div (d + 2) = kwY[i]
              /\ \A a, b \in 1..d : a < b => q[kwP[a]] % (d + 2) > q[kwP[b]] % (d + 2)
KNeighbours == \A k \in 0..kwD :
  LET q == Cross(kwD, kwY, kwP, k)
      A == {KCorners(kwY, kwP)[i] : i \in 1..(kwD + 1)}
      B == {KCorners(q[1], q[2])[i] : i \in 1..(kwD + 1)}
  IN /\ Cardinality(A \cap B) = kwD
     /\ KInside(kwD, kwN, q[1], q[2]) \/ OnBoundary(KWord, KImage, k + 1, kwN)
KTotal == SumSeq([i \in 1..Cardinality(KDims) |-> SumSeq([n \in 1..KMaxN |-> Pow(n, SetToSeq(KDims)[i])])])
KAll == TLCGet("distinct") = KTotal

(* with an even number of intervals every state lies in one of half as many *)
KHalf == [i \in 1..kwD |-> kwY[i] \div 2]
KPerms(d) == {p \in [1..d -> 1..d] : \A a, b \in 1..d : a # b => p[a] # p[b]}
KNested == kwN % 2 = 0 =>
  \E p \in KPerms(kwD) : KInside(kwD, kwN \div 2, KHalf, p) /\ PieceHas(KCorners(KHalf, p), KCorners(kwY, kwP), TRUE)
(* what a state has on a facet of the cell is a small simplex of the facet's own subdivision *)
Unshear(x) == [i \in 1..Len(x) |-> SumSeq(SubSeq(x, i, Len(x)))]
KChain(S) == \A a, b \in S : (SumSeq(b) = SumSeq(a) + 1 => \E i \in 1..Len(a) : b = [a EXCEPT ![i] = @ + 1]) /\ (a # b => SumSeq(a) # SumSeq(b))
KTrace == kwD > 1 => \A f \in 1..(kwD + 1) :
  LET S == {KImage[k] : k \in {j \in 1..(kwD + 1) : OnFacet(KWord, f, KImage[j], kwN)}}
      rows == Embedding(KWord, f - 1, 1)
      p0 == CellCorners(KWord, f - 1, 1)[1]
      Put(x) == [a \in 1..kwD |-> kwN * p0[a] + SumSeq([j \in 1..Len(x) |-> x[j] * rows[j][a]])]
      Own == [1..(kwD - 1) -> 0..kwN]
      T == {x \in Own : Put(x) \in S}
  IN Cardinality(S) = kwD => Cardinality(T) = kwD /\ KChain({Unshear(x) : x \in T})
=============================================================================

-------------------------------- MODULE Flux -------------------------------
(***************************************************************************)
(* Integration over elements, their facets and edges, exactly.  A map of a *)
(* reference cell is a tuple of polynomials with integer coefficients; a   *)
(* polynomial is a function from exponents to coefficients.  The outer     *)
(* normal times the surface measure of the image of a facet is the         *)
(* cofactor matrix of the Jacobian applied to the reference normal, so     *)
(* fluxes are integrals of polynomials over the facet's own reference cell *)
(* and rational.                                                           *)
(***************************************************************************)
EXTENDS Moments

SumOver(S, F(_)) == LET q == SetToSeq(S) IN SumSeq([i \in 1..Len(q) |-> F(q[i])])
ExZero(n) == [i \in 1..n |-> 0]
ExUnit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
ExAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
ExLeq(a, b) == \A i \in 1..Len(a) : a[i] <= b[i]
ExSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
PConst(n, c) == [e \in {ExZero(n)} |-> c]
At(p, e) == IF e \in DOMAIN p THEN p[e] ELSE 0
PTrim(p) == TLCEval([e \in {x \in DOMAIN p : p[x] # 0} |-> p[e]])
PAdd(p, q) == PTrim([e \in DOMAIN p \cup DOMAIN q |-> At(p, e) + At(q, e)])
PScale(c, p) == PTrim([e \in DOMAIN p |-> c * p[e]])
PMul(p, q) ==
  PTrim([e \in {TLCEval(ExAdd(a, b)) : a \in DOMAIN p, b \in DOMAIN q} |->
     SumOver({a \in DOMAIN p : ExLeq(a, e)}, LAMBDA a : p[a] * At(q, ExSub(e, a)))])
PSum(n, s) == FoldLeft(PAdd, PConst(n, 0), s)
RECURSIVE PPow(_, _, _)
PPow(n, p, k) == IF k = 0 THEN PConst(n, 1) ELSE PMul(p, PPow(n, p, k - 1))
PDiff(p, j) == PTrim([e \in {ExSub(x, ExUnit(Len(x), j)) : x \in {y \in DOMAIN p : y[j] > 0}} |->
                 (e[j] + 1) * p[ExAdd(e, ExUnit(Len(e), j))]])
(* p with polynomials s in n variables put in for its variables *)
PPut(n, p, s) ==
  LET q == SetToSeq(DOMAIN p)
  IN PSum(n, [i \in 1..Len(q) |->
       PScale(p[q[i]], FoldLeft(LAMBDA acc, k : IF q[i][k] = 0 THEN acc ELSE PMul(acc, PPow(n, s[k], q[i][k])),
                                PConst(n, 1), [k \in 1..Len(s) |-> k]))])
PMinor(M, i, j) ==
  LET n == Len(M)
  IN TLCEval([a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]])
RECURSIVE PDet(_, _)
PDet(n, M) ==
  IF Len(M) = 0 THEN PConst(n, 1)
  ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE PSum(n, [j \in 1..Len(M) |-> PScale(IF j % 2 = 1 THEN 1 ELSE -1, PMul(M[1][j], PDet(n, PMinor(M, 1, j))))])
(* integral of x^a over the cell w *)
RECURSIVE Moment(_, _)
Moment(w, a) ==
  IF w = <<>> THEN <<1, 1>>
  ELSE LET d == Len(w)
           b == Moment(SubSeq(w, 1, d - 1), SubSeq(a, 1, d - 1))
           s == SumSeq(SubSeq(a, 1, d - 1)) + d - 1
           (* k! s! / (k + s + 1)! *)
           beta == RDiv(Rat(1, a[d] + s + 1), RInt(ProdSeq([i \in 1..a[d] |-> s + i]) \div Fact(a[d])))
       IN IF w[d] = 1 \/ d = 1 THEN RMul(b, Rat(1, a[d] + 1)) ELSE RMul(b, beta)
PIntegral(w, p) == LET q == SetToSeq(DOMAIN p) IN RSum([i \in 1..Len(q) |-> RMul(RInt(p[q[i]]), Moment(w, q[i]))])

----------------------------------------------------------------------------
(* affine map through integer corners C of the cell w, and the multilinear map; the latter is a *)
(* polynomial if every pyramid in the construction is mapped affinely                           *)
UnitAt(w, k) == CHOOSE j \in 1..Len(Corners[w]) : Corners[w][j] = UnitVec(Len(w), k)
AffinePoly(w, C) ==
  LET m == Len(w)
  IN TLCEval([a \in 1..Len(C[1]) |->
       PTrim([e \in {ExZero(m)} \cup {ExUnit(m, k) : k \in 1..m} |->
          IF SumSeq(e) = 0 THEN C[1][a] ELSE LET k == CHOOSE i \in 1..m : e[i] = 1 IN C[UnitAt(w, k)][a] - C[1][a]])])
IsAffineInt(w, C) ==
  \A j \in 1..Len(C) : \A a \in 1..Len(C[1]) :
    C[j][a] = C[1][a] + SumSeq([k \in 1..Len(w) |-> Corners[w][j][k] * (C[UnitAt(w, k)][a] - C[1][a])])
PWiden(p) == TLCEval([e \in {Append(x, 0) : x \in DOMAIN p} |-> p[SubSeq(e, 1, Len(e) - 1)]])
RECURSIVE MapPoly(_, _)
MapPoly(w, C) ==
  IF IsAffineInt(w, C) THEN AffinePoly(w, C)
  ELSE LET d == Len(w)                       \* the last step is a prism
           b == SubSeq(w, 1, d - 1)
           n == Len(C) \div 2
           lo == MapPoly(b, SubSeq(C, 1, n))
           hi == MapPoly(b, SubSeq(C, n + 1, 2 * n))
           z == [e \in {ExUnit(d, d)} |-> 1]
       IN TLCEval([a \in 1..Len(C[1]) |->
            LET l == PWiden(lo[a]) IN PAdd(l, PMul(z, PAdd(PWiden(hi[a]), PScale(-1, l))))])
RECURSIVE IsPoly(_, _)
IsPoly(w, C) ==
  IF IsAffineInt(w, C) THEN TRUE
  ELSE IF w[Len(w)] = 0 THEN FALSE
  ELSE LET n == Len(C) \div 2
           b == SubSeq(w, 1, Len(w) - 1)
       IN IsPoly(b, SubSeq(C, 1, n)) /\ IsPoly(b, SubSeq(C, n + 1, 2 * n))

(* rows: derivatives of the components *)
PJacobian(Y, m) == TLCEval([a \in 1..Len(Y) |-> TLCEval([j \in 1..m |-> PDiff(Y[a], j)])])
(* the embedding of cell (i,c) of w, in the coordinates of the cell's own reference cell *)
CellMap(w, i, c) == AffinePoly(CellOf(w, i, c).w, CellCorners(w, i, c))
(* component k of the outer normal times the measure on facet i, for a map of positive orientation *)
NormalMeasure(w, Y, J, i, k) ==
  LET m == Len(w)
      N == Normals[w][i + 1]
  IN PSum(m, [j \in 1..m |-> IF N[j] = 0 THEN PConst(m, 0)
        ELSE PScale(N[j] * (IF (k + j) % 2 = 0 THEN 1 ELSE -1), PDet(m, PMinor(J, k, j)))])
(* fields are monomials y^a of the image *)
FieldOf(m, Y, a) == FoldLeft(LAMBDA acc, k : IF a[k] = 0 THEN acc ELSE PMul(acc, PPow(m, Y[k], a[k])), PConst(m, 1), [k \in 1..Len(a) |-> k])
(* flux of y^a e_k through facet i *)
FacetFlux(w, Y, J, a, k, i) ==
  LET fw == CellOf(w, i, 1).w
      n == Len(fw)
      e == CellMap(w, i, 1)
      Z == TLCEval([b \in 1..Len(Y) |-> PPut(n, Y[b], e)])
  IN PIntegral(fw, PMul(FieldOf(n, Z, a), PPut(n, NormalMeasure(w, Y, J, i, k), e)))
(* integral of the derivative of y^a in direction k over the image *)
VolumeOf(w, Y, J, a, k) ==
  LET m == Len(w) IN
  IF a[k] = 0 THEN <<0, 1>>
  ELSE PIntegral(w, PMul(PScale(a[k], FieldOf(m, Y, ExSub(a, ExUnit(Len(a), k)))), PDet(m, J)))
(* difference of y^a between the ends of edge i *)
ValueAt(Y, x) == TLCEval([a \in 1..Len(Y) |-> SumOver(DOMAIN Y[a], LAMBDA e : Y[a][e] * ProdSeq([k \in 1..Len(x) |-> Pow(x[k], e[k])]))])
Power(y, a) == ProdSeq([k \in 1..Len(y) |-> Pow(y[k], a[k])])
EdgeRise(w, Y, a, i) ==
  LET P == CellCorners(w, i, Len(w) - 1) IN Power(ValueAt(Y, P[2]), a) - Power(ValueAt(Y, P[1]), a)
(* integral of the tangential derivative of y^a along edge i *)
EdgeWork(w, Y, a, i) ==
  LET e == CellMap(w, i, Len(w) - 1)
      Z == TLCEval([b \in 1..Len(Y) |-> PPut(1, Y[b], e)])
  IN PIntegral(<<1>>, PSum(1, [k \in 1..Len(a) |->
       IF a[k] = 0 THEN PConst(1, 0)
       ELSE PMul(PScale(a[k], FieldOf(1, Z, ExSub(a, ExUnit(Len(a), k)))), PDiff(Z[k], 1))]))
(* sign of the orientation at the first corner *)
OrientAt(J, w) == IDet(TLCEval([a \in 1..Len(J) |-> ValueAt(J[a], Corners[w][1])]))
=============================================================================

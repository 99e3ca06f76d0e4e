-------------------------------- MODULE Rules ------------------------------
(***************************************************************************)
(* What a quadrature rule must be, by family.                              *)
(***************************************************************************)
EXTENDS Moments, LinAlg

Gauss == 0
Jacobi1 == 1
Jacobi2 == 2
JacobiN == 3
Lobatto == 4
RadauLeft == 5
RadauRight == 6
Families == 0..6
(* weight function (2(1-x))^al of the raw one-dimensional rule *)
Alpha(qt) == IF qt = Jacobi1 THEN 1 ELSE IF qt = Jacobi2 THEN 2 ELSE 0
RuleMeasure(m, id, qt) == IF m = 1 THEN MeasureJacobi(Alpha(qt)) ELSE Measure(WordOf(m, id))
RuleStep(m, id, qt, a, k) == IF m = 1 THEN StepJacobi(Alpha(qt), a[1]) ELSE Step(WordOf(m, id), a, k)
(* accepted relative error of one step, in units of 10^-16: a big number *)
MomentTol(ct, deg) == IF ct = "float" THEN BigShift(BigNat(1000), 2) ELSE BigNat(2000)

(* n points of a family integrate polynomials of this degree *)
OrderOfSize(qt, n) == IF qt = Lobatto THEN 2 * n - 3 ELSE IF qt \in {RadauLeft, RadauRight} THEN 2 * n - 2 ELSE 2 * n - 1
MinSize(qt) == IF qt = Lobatto THEN 2 ELSE 1
SmallestSize(qt, p) == MinOf({n \in MinSize(qt)..(p + 2) : OrderOfSize(qt, n) >= p})
HasLeftEnd(qt) == qt \in {Lobatto, RadauLeft}
HasRightEnd(qt) == qt \in {Lobatto, RadauRight}
IsMirrored(qt) == qt \in {Gauss, JacobiN, Lobatto, RadauLeft, RadauRight}

(* highest order on offer *)
LineTop(qt) == CASE qt = JacobiN -> 127 [] qt = Lobatto -> 31 [] qt \in {RadauLeft, RadauRight} -> 30 [] OTHER -> 61
RECURSIVE ProductTop(_, _)
Table(w, qt) ==
  IF Len(w) = 2 /\ IsSimplexWord(w) THEN 12
  ELSE IF Len(w) = 3 /\ IsSimplexWord(w) THEN 5
  ELSE 0
ProductTop(w, qt) ==
  IF Len(w) = 0 THEN 1000000
  ELSE IF Len(w) = 1 THEN LineTop(qt)
  ELSE LET d == Len(w)
           base == ProductTop(SubSeq(w, 1, d - 1), qt)
           own == IF w[d] = 1 \/ qt = JacobiN THEN Min2(base, LineTop(qt)) ELSE Min2(base, LineTop(qt) - (d - 1))
       IN Max2(own, Table(w, qt))
HighestOrder(m, w, qt) == ProductTop(w, qt)
Granted(m, p, top) == IF m = 0 THEN TRUE ELSE p >= 0 /\ p <= top

ShapeExists(name, m) ==
  CASE name = "simplex" -> TRUE
    [] name = "cube" -> TRUE
    [] name \in {"pyramid", "prism"} -> m = 3
    [] OTHER -> FALSE
ShapeWord(name, m) ==
  CASE name = "simplex" -> [k \in 1..m |-> 0]
    [] name = "cube" -> [k \in 1..m |-> 1]
    [] name = "pyramid" -> <<1, 1, 0>>
    [] OTHER -> <<1, 0, 1>>

SameObs(a, b, tol) ==
  LET d == a[1] - b[1]
      f == a[2] - b[2]
  IN \/ d = 0 /\ Abs(f) <= tol
     \/ d = 1 /\ GIGA + f <= tol
     \/ d = -1 /\ GIGA - f <= tol
(* sum of N_k * o_k <= t + tol * 10^-9 *)
LinAtMost(N, o, t, tol) ==
  LET n == Len(N)
      s0 == SumSeq([k \in 1..n |-> N[k] * (o[k][2] % 1000)])
      s1 == SumSeq([k \in 1..n |-> N[k] * ((o[k][2] \div 1000) % 1000)]) + (s0 \div 1000)
      s2 == SumSeq([k \in 1..n |-> N[k] * (o[k][2] \div 1000000)]) + (s1 \div 1000)
      si == SumSeq([k \in 1..n |-> N[k] * o[k][1]]) + (s2 \div 1000) - t
      r  == (s2 % 1000) * 1000000 + (s1 % 1000) * 1000 + (s0 % 1000)
  IN si < 0 \/ (si = 0 /\ r <= tol)
=============================================================================

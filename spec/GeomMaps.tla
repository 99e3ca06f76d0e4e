----------------------------- MODULE GeomMaps ------------------------------
(* The exact maps geometries stand for: value and transposed Jacobian at a  *)
(* rational point.                                                          *)
EXTENDS Geom

(* multilinear: rational corners C of the cell w *)
MLAt(w, C, x) == LET S == TLCEval(Shape(w, x)) IN TLCEval([val |-> InterpValue(S, C), jt |-> InterpJacT(S, C)])

(* affine: origin o and rows A *)
AffineMap(o, A, x, m, c) ==
  [val |-> [a \in 1..c |-> RAdd(o[a], RSum([j \in 1..m |-> RMul(x[j], A[j][a])]))], jt |-> A]

(* Polynomial maps: for each component a list of terms <<coefficient, exponents>>.   *)
RPow(q, k) == <<Pow(q[1], k), Pow(q[2], k)>>
Monomial(x, ex) == FoldLeft(LAMBDA acc, i : IF ex[i] = 0 THEN acc ELSE RMul(acc, RPow(x[i], ex[i])), ROne, [i \in 1..Len(ex) |-> i])
PolyVal(p, x) == RSum([t \in 1..Len(p) |-> RMul(RInt(p[t][1]), Monomial(x, p[t][2]))])
PolyDiff(p, x, i) ==
  RSum([t \in 1..Len(p) |-> IF p[t][2][i] = 0 THEN RZero
          ELSE RMul(RInt(p[t][1] * p[t][2][i]), Monomial(x, [p[t][2] EXCEPT ![i] = @ - 1]))])
(* a polynomial map applied after an inner multilinear geometry in dimension n *)
MappedAt(w, C, poly, n, m, c, x) ==
  LET S == TLCEval(Shape(w, x))
      y == InterpValue(S, C)
      jt == InterpJacT(S, C)
      dm == TLCEval([k \in 1..c |-> TLCEval([i \in 1..n |-> PolyDiff(poly[k], y, i)])])
  IN TLCEval([val |-> TLCEval([k \in 1..c |-> PolyVal(poly[k], y)]),
              jt |-> TLCEval([j \in 1..m |-> TLCEval([k \in 1..c |-> VDot(jt[j], dm[k])])])])
(* integer coefficients V times polynomial basis functions over a denominator *)
LFEAt(V, basis, bden, m, c, x) ==
  LET n == Len(V)
      f == TLCEval([i \in 1..n |-> RDiv(PolyVal(basis[i], x), RInt(bden))])
      df == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> RDiv(PolyDiff(basis[i], x, j), RInt(bden))])])
  IN TLCEval([val |-> TLCEval([a \in 1..c |-> RSum([i \in 1..n |-> RMul(f[i], RInt(V[i][a]))])]),
              jt |-> TLCEval([j \in 1..m |-> TLCEval([a \in 1..c |-> RSum([i \in 1..n |-> RMul(df[i][j], RInt(V[i][a]))])])])])
=============================================================================

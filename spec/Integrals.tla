------------------------------ MODULE Integrals ----------------------------
(* Judging recorded integrals and points of quadrature rules. *)
EXTENDS Rules

(* recorded integrals: sign, exponent, four limbs *)
Mant(o) == BigTrim(SubSeq(o, 3, 6))
Ten == <<1, 10, 100, 1000>>
Times10(b, k) == IF k >= 4 THEN BigShift(BigMulSmall(b, Ten[1 + (k % 4)]), k \div 4) ELSE BigMulSmall(b, Ten[k + 1])
(* p * q[1] = o * q[2] up to a relative error of tol * 10^-16 *)
RatioOk(p, o, q, tol) ==
  IF p[1] # 1 \/ o[1] # 1 THEN FALSE
  ELSE LET d == p[2] - o[2] IN
       IF Abs(d) > 6 THEN FALSE
       ELSE LET P == BigMul(IF d > 0 THEN Times10(Mant(p), d) ELSE Mant(p), BigNat(q[1]))
                O == BigMul(IF d < 0 THEN Times10(Mant(o), -d) ELSE Mant(o), BigNat(q[2]))
            IN BigLeq(BigShift(BigDist(P, O), 4), BigMul(P, tol))
One == <<1, -15, 0, 0, 0, 1000>>
(* walk = <<directions, integrals>> *)
RECURSIVE WalkOk(_, _, _, _, _)
WalkOk(e, dirs, vals, a, k) ==
  IF k > Len(dirs) THEN TRUE
  ELSE /\ RatioOk(vals[k], vals[k + 1], RuleStep(e.m, e.id, e.qt, a, dirs[k] + 1), MomentTol(e.ct, SumSeq(a)))
       /\ WalkOk(e, dirs, vals, TLCEval(Raise(a, dirs[k] + 1)), k + 1)
PointIn(w, p, tol) ==       \* a recorded point lies in the cell, up to tol * 10^-9
  \A f \in 1..Len(Normals[w]) :
    LET n == Normals[w][f]
        q == FacetPoint[w][f]
        co == n
        t == IDot(n, q)
    IN LinAtMost(co, p, t, tol)
=============================================================================

------------------------------- MODULE Moments -----------------------------
(***************************************************************************)
(* Integrals of monomials over the reference cells.  A state is an exponent*)
(* vector; raising one exponent multiplies the integral by a small rational*)
(* that follows from the construction word: a prism integrates the new     *)
(* coordinate over [0,1], a pyramid shrinks the base by 1-z.               *)
(***************************************************************************)
EXTENDS RefTopo

RECURSIVE Step(_, _, _)
(* M(a + e_k) / M(a) *)
Step(w, a, k) ==
  LET d == Len(w)
      b == SubSeq(w, 1, d - 1)
      ab == SubSeq(a, 1, d - 1)
      z == a[d]
      s == SumSeq(ab)
  IN IF w[d] = 1 \/ d = 1
     THEN IF k = d THEN Rat(z + 1, z + 2) ELSE Step(b, ab, k)
     ELSE IF k = d THEN Rat(z + 1, z + s + d + 1)
          ELSE RMul(Step(b, ab, k), Rat(s + d, z + s + d + 1))
Measure(w) == Rat(1, VolDen[w])
(* on the line with the weight (2(1-x))^al *)
StepJacobi(al, n) == Rat(n + 1, n + al + 2)
MeasureJacobi(al) == Rat(Pow(2, al), al + 1)
Raise(a, k) == [a EXCEPT ![k] = @ + 1]
=============================================================================

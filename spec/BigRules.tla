------------------------------ MODULE BigRules -----------------------------
(***************************************************************************)
(* Quadrature rules in a number type of many digits.  A number is written  *)
(* as the natural number v * 10^80; the integrals of monomials are carried *)
(* with sixteen further digits along a walk over the exponents.            *)
(***************************************************************************)
EXTENDS Rules

RECURSIVE BigDivAt(_, _, _, _)
(* quotient by a small number, from the highest limb down *)
BigDivAt(a, k, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET v == r * BASE + a[i]
       IN BigDivAt(a, k, i - 1, v % k) \o <<v \div k>>
BigDivSmall(a, k) == BigTrim(BigDivAt(a, k, Len(a), 0))      \* k < 2*10^5
BigTimes(a, q) == BigDivSmall(BigMulSmall(a, q[1]), q[2])

Digits == 20                 \* limbs behind the point
Guard == 4                   \* further limbs
BigOne == BigShift(<<1>>, Digits)
DropGuard(a) == IF Len(a) <= Guard THEN <<>> ELSE SubSeq(a, Guard + 1, Len(a))
(* the tables hold one hundred digits, computed to about eighty *)
BigTol == <<0, 10>>           \* 10^-75
BigNear(a, b) == BigLeq(BigDist(a, b), BigTol)
=============================================================================

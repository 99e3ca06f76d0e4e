------------------------------- MODULE BigWalk -----------------------------
(* The carried integral of x^a y^b on the square, the triangle and the line *)
(* with weight stays within its guard digits of the closed form, whatever   *)
(* way the walk took to the exponents.                                     *)
EXTENDS BigRules
CONSTANT BWTop
VARIABLES bwWhere, bwExp, bwVal
bwVars == <<bwWhere, bwExp, bwVal>>
BWWords == {<<1>>, <<1, 1>>, <<1, 0>>}
BWStart(w) == BigTimes(BigShift(BigOne, Guard), Measure(w))
BWInit == \E w \in BWWords : bwWhere = w /\ bwExp = [k \in 1..Len(w) |-> 0] /\ bwVal = BWStart(w)
BWNext == /\ SumSeq(bwExp) < BWTop
          /\ \E k \in 1..Len(bwExp) : /\ bwVal' = BigTimes(bwVal, Step(bwWhere, bwExp, k))
                                      /\ bwExp' = Raise(bwExp, k)
          /\ bwWhere' = bwWhere
BWSpec == BWInit /\ [][BWNext]_bwVars
RECURSIVE DivAll(_, _)
DivAll(a, s) == IF s = <<>> THEN a ELSE DivAll(BigDivSmall(a, Head(s)), Tail(s))
RECURSIVE MulAll(_, _)
MulAll(a, s) == IF s = <<>> THEN a ELSE MulAll(BigMulSmall(a, Head(s)), Tail(s))
(* closed forms: 1/((a+1)(b+1)) and a! b! / (a+b+2)! *)
BWClosed ==
  LET one == BigShift(BigOne, Guard)
      a == bwExp[1]
      b == IF Len(bwExp) = 2 THEN bwExp[2] ELSE 0
  IN IF bwWhere = <<1, 0>>
     THEN DivAll(MulAll(one, [k \in 1..b |-> k]), [k \in 1..(b + 2) |-> a + k])
     ELSE DivAll(one, <<a + 1, b + 1>>)
BWNear == BigLeq(BigDist(bwVal, BWClosed), <<0, 1>>)
BWDigits == \A i \in 1..Len(bwVal) : bwVal[i] \in 0..(BASE - 1)
=============================================================================

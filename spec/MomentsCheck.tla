---------------------------- MODULE MomentsCheck ---------------------------
(* The walk defines a function of the exponents: raising two exponents in   *)
(* either order gives the same integral; for simplices and cubes it is the *)
(* known closed form; and cutting a cell along its construction agrees.    *)
EXTENDS Moments
CONSTANT Degree
VARIABLES mmWord, mmExp, mmVal
MMInit == \E w \in AllWords : mmWord = w /\ mmExp = [k \in 1..Len(w) |-> 0] /\ mmVal = Measure(w)
MMRaise(k) == /\ SumSeq(mmExp) < Degree
              /\ mmExp' = Raise(mmExp, k) /\ mmVal' = RMul(mmVal, Step(mmWord, mmExp, k)) /\ mmWord' = mmWord
MMNext == \E k \in 1..Len(mmWord) : MMRaise(k)
MMSpec == MMInit /\ [][MMNext]_<<mmWord, mmExp, mmVal>>
Commutes == \A j, k \in 1..Len(mmWord) :
  RMul(Step(mmWord, mmExp, k), Step(mmWord, Raise(mmExp, k), j)) = RMul(Step(mmWord, mmExp, j), Step(mmWord, Raise(mmExp, j), k))
ClosedForm ==
  /\ IsCubeWord(mmWord) => mmVal = Rat(1, ProdSeq([k \in 1..Len(mmExp) |-> mmExp[k] + 1]))
  /\ IsSimplexWord(mmWord) => mmVal = Rat(ProdSeq([k \in 1..Len(mmExp) |-> Fact(mmExp[k])]), Fact(SumSeq(mmExp) + Len(mmExp)))
(* the layer-cake form: the moment of a pyramid is a beta integral over the moments of its base *)
RECURSIVE Direct(_, _)
Direct(w, a) ==
  IF w = <<>> THEN <<1, 1>>
  ELSE LET d == Len(w)
           b == Direct(SubSeq(w, 1, d - 1), SubSeq(a, 1, d - 1))
           s == SumSeq(SubSeq(a, 1, d - 1)) + d - 1
       IN IF w[d] = 1 \/ d = 1 THEN RMul(b, Rat(1, a[d] + 1))
          ELSE RMul(b, Rat(Fact(a[d]) * Fact(s), Fact(a[d] + s + 1)))
LayerCake == mmVal = Direct(mmWord, mmExp)

=============================================================================

------------------------------- MODULE Interp ------------------------------
(***************************************************************************)
(* The multilinear interpolation of corner values on every reference cell. *)
(* Shape(w, x): for every corner its shape function's value and gradient   *)
(* at the rational point x.  A prism interpolates linearly between bottom  *)
(* and top, a pyramid between the base, evaluated at x'/(1-z), and the     *)
(* apex.  In the plane z = 1 this has a limit only at the apex, or if the   *)
(* base is affine: its linear part, which is taken at 0; for the gradient  *)
(* the base has to be affine even at the apex.                             *)
(***************************************************************************)
EXTENDS RefTopo

ROne == <<1, 1>>
RZero == <<0, 1>>
RECURSIVE Shape(_, _)
Shape(w, x) ==
  IF w = <<>> THEN <<[val |-> ROne, grad |-> <<>>]>>
  ELSE
    LET d == Len(w)
        base == SubSeq(w, 1, d - 1)
        z == x[d]
        cz == RSub(ROne, z)
        flat == SubSeq(x, 1, d - 1)
    IN IF w[d] = 1 \/ d = 1
       THEN LET S == TLCEval(Shape(base, flat))
                n == Len(S)
            IN TLCEval([k \in 1..(2 * n) |->
                 IF k <= n THEN [val |-> RMul(cz, S[k].val),
                                 grad |-> TLCEval(Append(VScale(cz, S[k].grad), RNeg(S[k].val)))]
                 ELSE [val |-> RMul(z, S[k - n].val),
                       grad |-> TLCEval(Append(VScale(z, S[k - n].grad), S[k - n].val))]])
       ELSE LET y == TLCEval(IF cz[1] = 0 THEN VZero(d - 1) ELSE VScale(RInv(cz), flat))
                S == TLCEval(Shape(base, y))
                n == Len(S)
            IN TLCEval([k \in 1..(n + 1) |->
                 IF k <= n THEN [val |-> IF cz[1] = 0 THEN VDot(flat, S[k].grad) ELSE RMul(cz, S[k].val),
                                 grad |-> TLCEval(Append(S[k].grad, RSub(VDot(y, S[k].grad), S[k].val)))]
                 ELSE [val |-> z, grad |-> Append(VZero(d - 1), ROne)]])
(* is x on a point where some pyramid step degenerates *)
RECURSIVE AtApex(_, _)
AtApex(w, x) ==
  LET d == Len(w) IN
  IF d <= 1 THEN FALSE
  ELSE LET base == SubSeq(w, 1, d - 1)
           cz == RSub(ROne, x[d])
           flat == SubSeq(x, 1, d - 1)
       IN IF w[d] = 1 THEN AtApex(base, flat)
          ELSE cz[1] = 0 \/ AtApex(base, VScale(RInv(cz), flat))

(* values: a sequence of rational vectors, one for each corner *)
InterpValue(S, values) ==
  TLCEval([a \in 1..Len(values[1]) |-> RSum([k \in 1..Len(S) |-> RMul(S[k].val, values[k][a])])])
(* transposed Jacobian: row j is the derivative in direction j *)
InterpJacT(S, values) ==
  TLCEval([j \in 1..Len(S[1].grad) |-> TLCEval(
    [a \in 1..Len(values[1]) |-> RSum([k \in 1..Len(S) |-> RMul(S[k].grad[j], values[k][a])])])])

RefCorners(w) == [k \in 1..Len(Corners[w]) |-> [a \in 1..Len(w) |-> RInt(Corners[w][k][a])]]
(* values are those of an affine map *)
IsAffine(w, values) ==
  LET Q == Corners[w]
      m == Len(w)
      at(k) == CHOOSE j \in 1..Len(Q) : Q[j] = UnitVec(m, k)
      e == TLCEval([k \in 1..m |-> VSub(values[at(k)], values[1])])
  IN \A j \in 1..Len(Q) : \A a \in 1..Len(values[1]) :
       values[j][a] = RAdd(values[1][a], RSum([k \in 1..m |-> RMul(RInt(Q[j][k]), e[k][a])]))
=============================================================================

------------------------------ MODULE TrInverse ----------------------------
(* Conformance of inversions: an answer maps back to the point it was asked *)
(* for, and the image of a point of a well-shaped element has an answer,    *)
(* which is that point.                                                    *)
EXTENDS Num, TraceBase
SameObs(a, b, tol) ==
  LET d == a[1] - b[1]
      f == a[2] - b[2]
  IN \/ d = 0 /\ Abs(f) <= tol
     \/ d = 1 /\ GIGA + f <= tol
     \/ d = -1 /\ GIGA - f <= tol
Magnitude(v) == FoldLeft(LAMBDA b, o : Max2(b, Abs(o[1]) + 1), 1, v)
InvVerdict(e) ==
  LET rt == IF e.ct = "float" THEN 1000000 ELSE 20 + Magnitude(e.y) \div 10       \* of the residual
      xt == IF e.ct = "float" THEN 1000000 ELSE 40                                \* of the local coordinate
  IN IF e.op # "inv" THEN "unknown event"
     ELSE IF e.out = "error" THEN (IF e.must THEN "no preimage found" ELSE "ok")
     ELSE IF Len(e.back) # e.c \/ \E k \in 1..e.c : ~SameObs(e.y[k], e.back[k], rt) THEN "the answer does not map back"
     ELSE IF e.must /\ e.x # <<>> /\ \E k \in 1..e.m : ~Near(Rat(e.x[k], e.den), e.loc[k], xt) THEN "another point"
     ELSE "ok"
=============================================================================

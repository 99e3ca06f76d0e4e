------------------------------- MODULE TrQuad ------------------------------
(* Conformance of quadrature rules. *)
EXTENDS Integrals, TraceBase

MomentsVerdict(e) ==
  IF e.size = 0 THEN "empty rule"
  ELSE IF e.order < e.p THEN "order"
  ELSE IF \E w \in Range(e.walks) : Len(w[1]) # (IF e.m = 0 THEN 0 ELSE e.order) THEN "the recorded walk is too short"
  ELSE IF \E w \in Range(e.walks) : ~RatioOk(One, w[2][1], RuleMeasure(e.m, e.id, e.qt), MomentTol(e.ct, 0)) THEN "sum of weights"
  ELSE IF \E w \in Range(e.walks) : ~WalkOk(e, w[1], w[2], [k \in 1..e.m |-> 0], 1) THEN "integral of a monomial"
  ELSE "ok"

RequestVerdict(e) ==
  IF e.by = "type" THEN
    (IF ~Granted(e.m, e.p, e.max) THEN (IF e.out = "refused" THEN "ok" ELSE "a request that must be refused was granted")
     ELSE IF e.out = "refused" THEN "a request within the advertised orders was refused"
     ELSE IF e.tdim # e.m \/ e.tnone \/ ~SameShape(WordOf(e.m, e.tid), WordOf(e.m, e.id)) THEN "rule of another type"
     ELSE IF e.size < 1 \/ Len(e.pts) < 1 THEN "empty rule"
     ELSE IF e.order < e.p THEN "order lower than requested"
     ELSE IF \E k \in 1..Len(e.pts) : ~PointIn(WordOf(e.m, e.id), e.pts[k], IF e.ct = "float" THEN 1000 ELSE 2) THEN "point outside of the element"
     ELSE "ok")
  ELSE
    (IF ~ShapeExists(e.shape, e.m) THEN (IF e.out = "refused" THEN "ok" ELSE "a shape that does not exist was granted")
     ELSE IF ~Granted(e.m, e.p, HighestOrder(e.m, ShapeWord(e.shape, e.m), e.qt)) THEN (IF e.out = "refused" THEN "ok" ELSE "a request that must be refused was granted")
     ELSE IF e.out = "refused" THEN "a request within the advertised orders was refused"
     ELSE IF e.tdim # e.m \/ e.tnone \/ ~SameShape(WordOf(e.m, e.tid), ShapeWord(e.shape, e.m)) THEN "rule of another type"
     ELSE IF ~e.same THEN "another rule than by type"
     ELSE IF e.size < 1 THEN "empty rule"
     ELSE IF e.order < e.p THEN "order lower than requested"
     ELSE "ok")

(* one-dimensional rules *)
XNear(o, n, tol) == NearInt(n, o, tol)
SumTo1(a, b, tol) == LinNear(<<1, 1>>, <<a, b>>, 1, tol)
LineVerdict(e) ==
  LET n == Len(e.pts)
      tol == IF e.ct = "float" THEN 1000 ELSE 2
      X == [k \in 1..n |-> e.pts[k][1]]
      W == [k \in 1..n |-> e.pts[k][2]]
      At(v) == Cardinality({k \in 1..n : XNear(X[k], v, tol)})
      MirrorOf(k) == {j \in 1..Len(e.mirror) : SumTo1(X[k], e.mirror[j][1], tol) /\ SameObs(W[k], e.mirror[j][2], 2 * tol)}
  IN IF n # SmallestSize(e.qt, e.p) THEN "number of points"
     ELSE IF e.order # OrderOfSize(e.qt, n) THEN "reported order"
     ELSE IF \E k \in 1..n : ~(X[k][1] = 0 \/ X[k] = <<1, 0>>) THEN "node outside of the interval"
     ELSE IF \E k \in 1..n : W[k][1] < 0 \/ W[k] = <<0, 0>> THEN "weight not positive"
     ELSE IF \E j, k \in 1..n : j < k /\ SameObs(X[j], X[k], 20 * tol) THEN "nodes coincide"
     ELSE IF At(0) # (IF HasLeftEnd(e.qt) THEN 1 ELSE 0) THEN "left end"
     ELSE IF At(1) # (IF HasRightEnd(e.qt) THEN 1 ELSE 0) THEN "right end"
     ELSE IF IsMirrored(e.qt) /\ (Len(e.mirror) # n \/ \E k \in 1..n : Cardinality(MirrorOf(k)) # 1) THEN "mirror image"
     ELSE "ok"

QuadVerdict(e) ==
  CASE e.op = "moments" -> MomentsVerdict(e)
    [] e.op = "request" -> RequestVerdict(e)
    [] e.op = "line" -> LineVerdict(e)
    [] OTHER -> "unknown event"
=============================================================================

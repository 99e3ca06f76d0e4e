----------------------------- MODULE TrPyRules -----------------------------
(* Conformance of types, quadrature rules and integration seen from Python. *)
EXTENDS PyNames, PySee, Integrals, TraceBase

(* types: raw = <<dim, id, none>> says what was asked for *)
IsNamed(t, n) == ~t.none /\ t = FixedNames[n]
PyTypeVerdict(e) ==
  LET t == Denotes(e.raw)
  IN IF e.dim # t.dim \/ e.dimension # t.dim THEN "dimension"
     ELSE IF e.text \notin PyNames(t) THEN "text"
     ELSE IF ~e.again THEN "type made from its text"
     ELSE IF (~t.none /\ (e.isVertex # IsNamed(t, "vertex") \/ e.isLine # IsNamed(t, "line"))) \/ e.isTriangle # IsNamed(t, "triangle")
             \/ e.isQuadrilateral # IsNamed(t, "quadrilateral") \/ e.isTetrahedron # IsNamed(t, "tetrahedron")
             \/ e.isPyramid # IsNamed(t, "pyramid") \/ e.isPrism # IsNamed(t, "prism") \/ e.isHexahedron # IsNamed(t, "hexahedron")
             \/ e.isSimplex # IsSimplexT(t) \/ e.isCube # IsCubeT(t) \/ e.isNone # t.none THEN "predicate"
     ELSE "ok"
PairsVerdict(e) ==
  LET Eq(k) == Denotes(e.raw) = Denotes(e.other[k])
      n == Len(e.other)
  IN IF \E k \in 1..n : e.eq[k] # Eq(k) THEN "=="
     ELSE IF \E k \in 1..n : e.ne[k] # ~Eq(k) THEN "!="
     ELSE IF \E k \in 1..n : Eq(k) /\ ~e.hash[k] THEN "hash of equal types"
     ELSE "ok"

(* rules *)
IntegralsVerdict(e) ==
  IF \E w \in Range(e.walks) : ~RatioOk(One, w[2][1], RuleMeasure(e.m, e.id, e.qt), MomentTol(e.ct, 0)) THEN "sum of weights"
  ELSE IF \E w \in Range(e.walks) : ~WalkOk(e, w[1], w[2], [k \in 1..e.m |-> 0], 1) THEN "integral of a monomial"
  ELSE "ok"
PyRuleVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      n == Len(e.pts)
  IN IF e.size = 0 \/ n = 0 THEN "empty rule"
     ELSE IF e.m > 0 /\ e.order < e.p THEN "order"
     ELSE IF e.text \notin PyNames(ShapeType(w)) THEN "type of the rule"
     ELSE IF e.arr # "answer" THEN "arrays: " \o e.arr
     ELSE IF e.shape # <<e.m, e.size, e.size>> THEN "shape of the arrays"
     ELSE IF e.arrays # e.pts THEN "arrays and iteration differ"
     ELSE IF \E k \in 1..n : ~PointIn(w, SubSeq(e.pts[k], 1, e.m), 2) THEN "point outside of the element"
     ELSE IF \E k \in 1..Len(e.same) : ~e.same[k] THEN "asking again gave another rule"
     ELSE IF \E k \in 1..Len(e.other) : e.other[k] THEN "asking for something else gave the same rule"
     ELSE IntegralsVerdict(e)
PyRequestVerdict(e) ==
  LET top == HighestOrder(e.m, WordOf(e.m, e.id), Gauss)
  IN IF Granted(e.m, e.p, top) THEN (IF e.out = "answer" /\ (e.m = 0 \/ e.order >= e.p) THEN "ok" ELSE "a request within the advertised orders: " \o e.out)
     ELSE IF e.out = "answer" THEN "a request that must be refused was granted"
     ELSE "ok"
PointVerdict(e) ==
  IF \E g \in Range(e.got) : Len(g) # e.m + 1 \/ ~NearVec([k \in 1..(e.m + 1) |-> Rat(IF k > e.m THEN e.w ELSE e.x[k], 8)], g, 2)
  THEN "point and weight" ELSE "ok"

(* histories: everything is seen as if it were the only object *)
LifeVerdict(e) ==
  LET v == LfAfter(e.steps)
      See(x) == IF x.k = 0 THEN <<>> ELSE e.table[x.k][x.pos]
      At(x) == IF x.k = 0 THEN <<>> ELSE IF x.k = LfOwn THEN e.own ELSE SubSeq(e.table[x.k][x.pos], 1, Len(e.own))
      rest == IF v.iter.k = 0 THEN 0 ELSE Min2(3, e.size[v.iter.k] - v.iter.pos)
  IN IF \E q \in {1, 2} : e.end.points[q] # See(v.pt[q]) THEN "a point that is held"
     ELSE IF \E q \in {1, 2} : e.end.positions[q] # At(v.ps[q]) THEN "a position that is held"
     ELSE IF e.end.rest # [n \in 1..rest |-> e.table[v.iter.k][v.iter.pos + n]] THEN "an iterator that is held"
     ELSE IF e.end.arrays # (IF v.arr = 0 THEN <<>> ELSE IF v.arr = LfOwn THEN <<e.ownrow, e.ownrow>> ELSE SubSeq(e.table[v.arr], 1, 2)) THEN "arrays that are held"
     ELSE IF e.end.whole # (IF v.rule = 0 THEN <<>> ELSE SubSeq(e.table[v.rule], 1, 2)) THEN "a rule that is held"
     ELSE "ok"

(* integrals over the image of an affine map; rows are those of the transposed Jacobian *)
EntityVerdict(e) ==
  IF \E k \in 1..Len(e.out) : e.out[k] # "answer" THEN "integration raised an exception"
  ELSE IF \E w \in Range(e.walks) :
            LET q == RuleMeasure(e.m, e.id, e.qt)
                d == Abs(IDet(e.rows))
            IN ~RatioOk(One, w[2][1], <<q[1] * d, q[2]>>, MomentTol(e.ct, 0)) THEN "integral of one"
  ELSE IF \E w \in Range(e.walks) : ~WalkOk(e, w[1], w[2], [k \in 1..e.m |-> 0], 1) THEN "integral of a monomial"
  ELSE "ok"

PyRulesVerdict(e) ==
  CASE e.op = "pytype" -> PyTypeVerdict(e)
    [] e.op = "lookup" -> IF Denotes(e.found) = Denotes(e.raw) THEN "ok" ELSE "types as keys"
    [] e.op = "pairs" -> PairsVerdict(e)
    [] e.op = "pyrule" -> PyRuleVerdict(e)
    [] e.op = "request" -> PyRequestVerdict(e)
    [] e.op = "norule" -> IF Granted(e.m, e.p, HighestOrder(e.m, WordOf(e.m, e.id), Gauss)) THEN "a request within the advertised orders was refused" ELSE "ok"
    [] e.op = "point" -> PointVerdict(e)
    [] e.op = "life" -> LifeVerdict(e)
    [] e.op \in {"integral", "vector"} -> EntityVerdict(e)
    [] OTHER -> "unknown event"
=============================================================================

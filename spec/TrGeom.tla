------------------------------- MODULE TrGeom ------------------------------
(* Conformance of multilinear, affine and box geometries. *)
EXTENDS GeomMaps, TraceBase

(* multilinear: corner list over a denominator *)
MLCorners(e) == [k \in 1..Len(e.corners) |-> [a \in 1..e.c |-> Rat(e.corners[k][a], e.cden)]]
MLVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      C == TLCEval(MLCorners(e))
      MapML(ev, x) == MLAt(w, C, x)
  IN GeometryVerdict(e, w, IsAffine(w, C), {IsAffine(w, C)}, MapML, "centre")

(* affine: origin and rows over a denominator *)
AffVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      o == TLCEval([a \in 1..e.c |-> Rat(e.origin[a], e.cden)])
      A == TLCEval([j \in 1..e.m |-> [a \in 1..e.c |-> Rat(e.rows[j][a], e.cden)]])
      MapA(ev, x) == AffineMap(o, A, x, e.m, e.c)
  IN GeometryVerdict(e, w, TRUE, {TRUE}, MapA, "centre")

(* box: lower and upper corner, set of axes in increasing order *)
BoxVerdict(e) ==
  LET w == [k \in 1..e.m |-> 1]
      o == TLCEval([a \in 1..e.c |-> Rat(e.lower[a], e.cden)])
      A == TLCEval([j \in 1..e.m |-> [a \in 1..e.c |->
             IF e.axes[j] + 1 = a THEN Rat(e.upper[a] - e.lower[a], e.cden) ELSE RZero]])
      MapB(ev, x) == AffineMap(o, A, x, e.m, e.c)
  IN GeometryVerdict(e, w, TRUE, {TRUE}, MapB, "centre")

(* a map of the plane or space applied after an inner multilinear geometry *)
MappedVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      C == TLCEval([k \in 1..Len(e.corners) |-> TLCEval([a \in 1..e.n |-> Rat(e.corners[k][a], e.cden)])])
      MapM(ev, x) == MappedAt(w, C, e.poly, e.n, e.m, e.c, x)
      aff == e.deg = 1 /\ IsAffine(w, C)
  IN GeometryVerdict(e, w, aff, {e.told}, MapM, IF aff /\ e.told THEN "centre" ELSE IF e.m = e.c THEN "integral" ELSE "none")
(* coefficients times polynomial basis functions *)
LFEVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      MapL(ev, x) == LFEAt(e.coef, e.basis, e.bden, e.m, e.c, x)
      CC == TLCEval([k \in 1..Len(Corners[w]) |-> MapL(e, RefCorners(w)[k]).val])
      aff == e.order <= 1 /\ IsAffine(w, CC)
  IN GeometryVerdict(e, w, aff, IF e.order <= 1 THEN {aff} ELSE {FALSE}, MapL,
                     IF aff THEN "centre" ELSE IF e.m = e.c THEN "integral" ELSE "none")

GeomVerdict(e) ==
  CASE e.kind = "ml" -> MLVerdict(e)
    [] e.kind = "aff" -> AffVerdict(e)
    [] e.kind = "box" -> BoxVerdict(e)
    [] e.kind = "mapped" -> MappedVerdict(e)
    [] e.kind = "lfe" -> LFEVerdict(e)
    [] OTHER -> "unknown event"
=============================================================================

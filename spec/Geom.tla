-------------------------------- MODULE Geom -------------------------------
(***************************************************************************)
(* What a geometry must answer, given the map it stands for.  The map is   *)
(* given by MapAt(e, x) = [val, jt]: the exact image of the rational point *)
(* x and the transposed Jacobian there (row j = derivative in direction j).*)
(* Everything else a geometry answers follows from it.                     *)
(***************************************************************************)
EXTENDS Interp, LinAlg

(* one point *)
PointVerdict(e, p, mp, apex, tol) ==
  LET m == e.m
      c == e.c
      jacKnown == e.hasjac /\ (~apex \/ e.wantAffine)
      D == TLCEval(MatDen(mp.jt))
      N == TLCEval(MatNum(mp.jt, D))
  IN IF ~NearVec(mp.val, p.g, tol) THEN "global"
     ELSE IF e.hasloc /\ ~(\A k \in 1..m : Near(Rat(p.x[k], e.den), p.loc[k], IF e.ct = "float" THEN 5000 ELSE 20)) THEN "local(global)"
     ELSE IF ~jacKnown THEN "ok"
     ELSE IF ~NearMat(mp.jt, p.jt, tol) THEN "jacobianTransposed"
     ELSE IF m > 0 /\ p.j # Transposed(p.jt, c) THEN "jacobian"
     ELSE IF e.hasie /\ ~NearRoot(GramBig(N, c), BigPow(D, m), p.ie, TolFor(e.ct, p.ie[1]) * (IF e.ct = "float" THEN 4 ELSE 1))
       THEN "integrationElement"
     ELSE IF "di" \in DOMAIN p /\ ~NearRoot(GramBig(N, c), BigPow(D, m), p.di, TolFor(e.ct, p.di[1]) * (IF e.ct = "float" THEN 4 ELSE 1))
       THEN "inverse determinant of the jacobianInverseTransposed"
     ELSE IF "dd" \in DOMAIN p /\ ~NearInvRoot(GramBig(N, c), BigPow(D, m), p.dd, TolFor(e.ct, p.dd[1]) * (IF e.ct = "float" THEN 4 ELSE 1))
       THEN "determinant of the jacobianInverseTransposed"
     ELSE IF e.hasinv /\ m > 0 /\ ~InverseOk(N, D, p.jit, m, c, e.ct) THEN "jacobianInverseTransposed"
     ELSE IF e.hasinv /\ m > 0 /\ p.ji # Transposed(p.jit, m) THEN "jacobianInverse"
     ELSE "ok"

RECURSIVE FirstBad(_, _)
FirstBad(vs, k) == IF k > Len(vs) THEN "ok" ELSE IF vs[k] # "ok" THEN vs[k] ELSE FirstBad(vs, k + 1)

SameType(t, m, w) == t[1] = m /\ ~t[3] /\ SameShape(WordOf(m, t[2]), w)
CellCentre(w) == Position(w, 0, 0)

(* The integral over the cell of a function that is a polynomial of degree <= 5 in    *)
(* each collapsed coordinate: Boole's rule along every construction step.  Nodes are  *)
(* <<point, integer weight, factor>>: weight over 90, factor the power of (1-z).      *)
BooleWeight == <<7, 32, 12, 32, 7>>
RECURSIVE BooleNodes(_)
BooleNodes(w) ==
  IF w = <<>> THEN {<<<<>>, 1, <<1, 1>>>>}
  ELSE LET d == Len(w)
           B == BooleNodes(SubSeq(w, 1, d - 1))
       IN UNION {LET z == Rat(k, 4)
                     cz == RSub(<<1, 1>>, z)
                     pyr == w[d] = 0 /\ d > 1
                 IN {<<Append(IF pyr THEN VScale(cz, n[1]) ELSE n[1], z), n[2] * BooleWeight[k + 1],
                       IF pyr THEN RMul(n[3], <<Pow(cz[1], d - 1), Pow(cz[2], d - 1)>>) ELSE n[3]>> : n \in B} : k \in 0..4}
BooleTab == TLCEval([w \in {v \in AllWords : Len(v) <= 3} |-> SetToSeq({n \in BooleNodes(w) : n[3][1] # 0})])
(* observed volume = integral of |det| (full-dimensional, orientation does not change) *)
VolumeIs(e, w, MapAt(_, _), o) ==
  LET nodes == BooleTab[w]
      J == TLCEval([k \in 1..Len(nodes) |-> TLCEval(MapAt(e, nodes[k][1]).jt)])
      D == FoldLeft(LAMBDA acc, M : Lcm(acc, MatDen(M)), 1, J)
      F == FoldLeft(LAMBDA acc, n : Lcm(acc, n[3][2]), 1, nodes)
      S == FoldLeft(LAMBDA acc, k :
             SBAdd(acc, SBMul(SB(nodes[k][2] * nodes[k][3][1] * (F \div nodes[k][3][2])), SBDet(MatNum(J[k], D)))),
             SB(0), [k \in 1..Len(nodes) |-> k])
      den == BigMul(BigMul(BigPow(90, e.m), BigNat(F)), BigPow(D, e.m))
      tol == BigMul(BigNat((IF e.ct = "float" THEN 5000 ELSE 60) * (o[1] + 1)), den)
  IN /\ o[1] >= 0
     /\ BigLeq(BigDist(BigMul(ObsBig(o), den), BigMul(S[2], BigNat(GIGA))), tol)

(* MapAt is evaluated at rational points.  isAffine: the map is affine; affineAnswers:  *)
(* what affine() may report.  vol: "centre" - the volume is the integration element at  *)
(* the centre times that of the reference cell (documented for multilinear maps),       *)
(* "integral" - the integral of the integration element, "none" - not judged.           *)
GeometryVerdict(e0, w, isAffine, affineAnswers, MapAt(_, _), vol) ==
  LET e == TLCEval([wantAffine |-> isAffine] @@ e0)
      m == e.m
      ref == Corners[w]
      nc == Len(ref)
      mag == MaxAbsObs(e.corner)
      tol == TolFor(e.ct, mag)
      cen == TLCEval(MapAt(e, CellCentre(w)))
      D == TLCEval(MatDen(cen.jt))
      pts == TLCEval([k \in 1..Len(e.pts) |->
               LET x == TLCEval([a \in 1..m |-> Rat(e.pts[k].x[a], e.den)])
               IN PointVerdict(e, e.pts[k], TLCEval(MapAt(e, x)), AtApex(w, x), tol)])
  IN IF ~SameType(e.type, m, w) \/ ~SameType(e.rtype, m, w) THEN "type"
     ELSE IF e.nc # nc \/ Len(e.corner) # nc THEN "corners"
     ELSE IF \E k \in 1..nc : ~NearVec(MapAt(e, [a \in 1..m |-> RInt(ref[k][a])]).val, e.corner[k], tol) THEN "corner"
     ELSE IF e.affine \notin affineAnswers THEN "affine"
     ELSE IF ~NearVec(cen.val, e.center, tol) THEN "center"
     ELSE IF e.hasvol /\ vol = "centre" /\ ~NearRoot(GramBig(MatNum(cen.jt, D), e.c), BigMulSmall(BigPow(D, m), VolDen[w]), e.vol, TolFor(e.ct, e.vol[1] + 1) * (IF e.ct = "float" THEN 4 ELSE 1))
       THEN "volume"
     ELSE IF e.hasvol /\ vol = "integral" /\ ~VolumeIs(e, w, MapAt, e.vol) THEN "volume"
     ELSE FirstBad(pts, 1)
=============================================================================

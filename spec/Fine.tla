-------------------------------- MODULE Fine -------------------------------
(***************************************************************************)
(* Answers in a number type of many digits.  An answer v is written as     *)
(* <<sign, limbs...>>: |v| * 10^80, rounded, as a natural number in limbs  *)
(* of four digits, lowest first.  It is compared with exact rationals.     *)
(***************************************************************************)
EXTENDS GeomMaps

FineDigits == 20                                  \* limbs behind the point
FineUnit == BigShift(<<1>>, FineDigits)
Fine(o) == <<o[1], BigTrim(Tail(o))>>             \* a signed natural number of units
IsFine(o) == Len(o) >= 1 /\ o[1] \in {-1, 1} /\ \A k \in 2..Len(o) : o[k] >= 0 /\ o[k] < BASE
FTol == BigShift(<<100>>, 2)                      \* 10^-70
FTolLocal == BigShift(<<1>>, 7)                   \* 10^-52: what an iteration may leave
SBScale(a, k) == SBMul(a, SB(k))
SBDist(a, b) == SBAdd(a, <<-b[1], b[2]>>)[2]
(* observed o = q up to tol units *)
FNear(q, o, tol) ==
  /\ IsFine(o)
  /\ BigLeq(SBDist(SBScale(Fine(o), q[2]), SBMul(SB(q[1]), <<1, FineUnit>>)), BigMul(tol, BigNat(q[2])))
FNearVec(qs, os, tol) == Len(os) = Len(qs) /\ \A k \in 1..Len(qs) : FNear(qs[k], os[k], tol)
FNearMat(qs, os, tol) == Len(os) = Len(qs) /\ \A k \in 1..Len(qs) : FNearVec(qs[k], os[k], tol)
(* (o * S)^2 = G up to tol units in o *)
FRoot(G, S, o, tol) ==
  /\ IsFine(o)
  /\ o[1] = 1
  /\ LET V == BigMul(Fine(o)[2], S)
         T == BigMul(tol, S)
     IN BigLeq(BigDist(BigMul(V, V), BigMul(G, BigMul(FineUnit, FineUnit))), BigMul(BigAdd(BigMulSmall(V, 2), T), T))
(* (o * sqrt(G))^2 = S^2 *)
FInvRoot(G, S, o, tol) ==
  /\ IsFine(o)
  /\ o[1] = 1
  /\ LET V == Fine(o)[2]
     IN BigLeq(BigDist(BigMul(BigMul(V, V), G), BigMul(BigMul(S, S), BigMul(FineUnit, FineUnit))), BigMul(BigMul(BigAdd(BigMulSmall(V, 2), tol), tol), G))
(* observed pseudo-inverse X (c rows, m columns) of the transposed Jacobian N / D:          *)
(* X times the Gram matrix is the Jacobian, that is X N N^T = D N^T                          *)
GramEntry(N, i, j) == FoldLeft(LAMBDA acc, k : SBAdd(acc, SBMul(SB(N[i][k]), SB(N[j][k]))), SB(0), [k \in 1..Len(N[1]) |-> k])
FInverse(N, D, X, m, c, tol) ==
  /\ Len(X) = c
  /\ \A a \in 1..c : Len(X[a]) = m /\ \A j \in 1..m : IsFine(X[a][j])
  /\ LET G == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |-> GramEntry(N, i, j)])])
         size == FoldLeft(LAMBDA acc, i : BigAdd(acc, G[i][i][2]), BigNat(1), [i \in 1..m |-> i])
     IN \A a \in 1..c, i \in 1..m :
          BigLeq(SBDist(FoldLeft(LAMBDA acc, j : SBAdd(acc, SBMul(Fine(X[a][j]), G[j][i])), SB(0), [j \in 1..m |-> j]),
                        SBMul(SBMul(SB(D), SB(N[i][a])), <<1, FineUnit>>)),
                 BigMul(tol, size))

FinePoint(e, p, mp, apex) ==
  LET m == e.m
      c == e.c
      D == TLCEval(MatDen(mp.jt))
      N == TLCEval(MatNum(mp.jt, D))
      lt == IF e.kind \in {"mapped", "lfe"} THEN FTolLocal ELSE FTol
  IN IF ~FNearVec(mp.val, p.g, FTol) THEN "global"
     ELSE IF ~FNearVec([k \in 1..m |-> Rat(p.x[k], e.den)], p.loc, lt) THEN "local(global)"
     ELSE IF apex /\ ~e.wantAffine THEN "ok"
     ELSE IF ~FNearMat(mp.jt, p.jt, FTol) THEN "jacobianTransposed"
     ELSE IF m > 0 /\ p.j # Transposed(p.jt, c) THEN "jacobian"
     ELSE IF ~FRoot(GramBig(N, c), BigPow(D, m), p.ie, FTol) THEN "integrationElement"
     ELSE IF "di" \in DOMAIN p /\ ~FRoot(GramBig(N, c), BigPow(D, m), p.di, FTol) THEN "inverse determinant of the jacobianInverseTransposed"
     ELSE IF "dd" \in DOMAIN p /\ ~FInvRoot(GramBig(N, c), BigPow(D, m), p.dd, FTol) THEN "determinant of the jacobianInverseTransposed"
     ELSE IF m > 0 /\ ~FInverse(N, D, p.jit, m, c, FTol) THEN "jacobianInverseTransposed"
     ELSE IF m > 0 /\ p.ji # Transposed(p.jit, m) THEN "jacobianInverse"
     ELSE "ok"

(* what a geometry must answer, see Geom: all of it to many digits *)
FineGeometry(e0, w, isAffine, affineAnswers, MapAt(_, _)) ==
  LET e == TLCEval([wantAffine |-> isAffine] @@ e0)
      m == e.m
      ref == Corners[w]
      cen == TLCEval(MapAt(e, CellCentre(w)))
      D == TLCEval(MatDen(cen.jt))
      pts == TLCEval([k \in 1..Len(e.pts) |->
               LET x == TLCEval([a \in 1..m |-> Rat(e.pts[k].x[a], e.den)])
               IN FinePoint(e, e.pts[k], TLCEval(MapAt(e, x)), AtApex(w, x))])
  IN IF ~SameType(e.type, m, w) \/ ~SameType(e.rtype, m, w) THEN "type"
     ELSE IF e.nc # Len(ref) \/ Len(e.corner) # Len(ref) THEN "corners"
     ELSE IF \E k \in 1..Len(ref) : ~FNearVec(MapAt(e, [a \in 1..m |-> RInt(ref[k][a])]).val, e.corner[k], FTol) THEN "corner"
     ELSE IF e.affine \notin affineAnswers THEN "affine"
     ELSE IF ~FNearVec(cen.val, e.center, FTol) THEN "center"
     ELSE IF e.hasvol /\ ~FRoot(GramBig(MatNum(cen.jt, D), e.c), BigMulSmall(BigPow(D, m), VolDen[w]), e.vol, FTol) THEN "volume"
     ELSE FirstBad(pts, 1)

(* the sub-entity i of codimension cd as an affine image of its own cell *)
FineEmbedding(w, i, cd, x, m, c) ==
  LET P == CellCorners(w, i, cd)
      E == Embedding(w, i, cd)
  IN AffineMap([a \in 1..c |-> RInt(P[1][a])], [j \in 1..m |-> [a \in 1..c |-> RInt(E[j][a])]], x, m, c)
=============================================================================

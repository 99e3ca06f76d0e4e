------------------------------- MODULE TrFine ------------------------------
(* Conformance of elements and geometries in a number type of many digits. *)
EXTENDS Fine, TraceBase

FineEvent(e) ==
  LET w == WordOf(e.m, e.id)
      C == TLCEval([k \in 1..Len(e.corners) |-> TLCEval([a \in 1..Len(e.corners[k]) |-> Rat(e.corners[k][a], e.cden)])])
      MapML(ev, x) == MLAt(w, C, x)
      O == TLCEval([a \in 1..e.c |-> Rat(e.origin[a], e.cden)])
      A == TLCEval([j \in 1..e.m |-> [a \in 1..e.c |-> Rat(e.rows[j][a], e.cden)]])
      MapA(ev, x) == AffineMap(O, A, x, e.m, e.c)
      L == TLCEval([a \in 1..e.c |-> Rat(e.lower[a], e.cden)])
      B == TLCEval([j \in 1..e.m |-> [a \in 1..e.c |-> IF e.axes[j] + 1 = a THEN Rat(e.upper[a] - e.lower[a], e.cden) ELSE RZero]])
      MapB(ev, x) == AffineMap(L, B, x, e.m, e.c)
      MapM(ev, x) == MappedAt(w, C, e.poly, e.n, e.m, e.c, x)
      MapL(ev, x) == LFEAt(e.coef, e.basis, e.bden, e.m, e.c, x)
      LC == TLCEval([k \in 1..Len(Corners[w]) |-> MapL(e, RefCorners(w)[k]).val])
      laff == e.order <= 1 /\ IsAffine(w, LC)
      whole == WordOf(e.c, e.id)
      MapE(ev, x) == FineEmbedding(whole, e.i, e.cd, x, e.m, e.c)
  IN CASE e.kind = "ml" -> FineGeometry(e, w, IsAffine(w, C), {IsAffine(w, C)}, MapML)
       [] e.kind = "aff" -> FineGeometry(e, w, TRUE, {TRUE}, MapA)
       [] e.kind = "box" -> FineGeometry(e, [k \in 1..e.m |-> 1], TRUE, {TRUE}, MapB)
       [] e.kind = "mapped" -> FineGeometry(e, w, e.deg = 1 /\ IsAffine(w, C), {e.told}, MapM)
       [] e.kind = "lfe" -> FineGeometry(e, w, laff, {laff}, MapL)
       [] e.kind = "emb" -> FineGeometry(e, CellOf(whole, e.i, e.cd).w, TRUE, {TRUE}, MapE)
       [] OTHER -> "unknown geometry"

FineCell(e) ==
  LET w == WordOf(e.m, e.id)
  IN IF Len(e.pos) # e.m + 1 \/ \E c \in 0..e.m : Len(e.pos[c + 1]) # Size(w, c) THEN "sizes"
     ELSE IF \E c \in 0..e.m : \E i \in 0..(Size(w, c) - 1) : ~FNearVec(Position(w, i, c), e.pos[c + 1][i + 1], FTol) THEN "position of a sub-entity"
     ELSE IF ~FNear(<<1, VolDen[w]>>, e.vol, FTol) THEN "volume"
     ELSE IF e.m > 0 /\ (Len(e.nor) # Size(w, 1) \/ \E f \in 1..Size(w, 1) : ~FNearVec([k \in 1..e.m |-> RInt(Normals[w][f][k])], e.nor[f], FTol))
       THEN "integration outer normal"
     ELSE "ok"

(* a point beside the centre of a facet *)
FineInside(e) == IF e.in = (Normals[WordOf(e.m, e.id)][e.f + 1][e.d] * e.s <= 0) THEN "ok" ELSE "inside test"

(* the corner k of an affine image was moved *)
FineOff(e) ==
  LET w == WordOf(e.m, e.id)
      C == [RefCorners(w) EXCEPT ![e.k + 1] = [@ EXCEPT ![e.a + 1] = RAdd(@, ROne)]]
  IN IF e.affine = IsAffine(w, C) /\ e.cached = e.affine THEN "ok" ELSE "affine"

FineVerdict(e) ==
  CASE e.op = "fine" -> FineEvent(e)
    [] e.op = "finecell" -> FineCell(e)
    [] e.op = "finein" -> FineInside(e)
    [] e.op = "fineoff" -> FineOff(e)
    [] OTHER -> "unknown event"
=============================================================================

------------------------------- MODULE TrRef -------------------------------
(* Conformance of reference elements: every recorded answer is the answer  *)
(* of the specified cell complex.                                          *)
EXTENDS RefTopo, TraceBase

Tol(e) == IF e.ct = "float" THEN 2000 ELSE 5
W(e) == WordOf(e.dim, e.id)
IsType(t, w) == t[1] = Len(w) /\ t[3] = FALSE /\ SameShape(WordOf(t[1], t[2]), w)
               /\ t[2] >= 0 /\ t[2] < Pow(2, Len(w))
ValidRef(e) == e.id >= 0 /\ e.id < Pow(2, e.dim)

TopoOk(e) == LET w == W(e) IN
  /\ e.size = [c1 \in 1..(e.dim + 1) |-> Size(w, c1 - 1)]
  /\ IsType(e.type, w)
TypeOk(e) == IsType(e.type, CellOf(W(e), e.i, e.c).w)

ExpectedSub(w, i, c, cc) ==
  IF cc < c THEN <<>>
  ELSE [k \in 1..SubSize(w, i, c, cc) |-> SubEntity(w, i, c, k - 1, cc)]
SubOk(e) ==
  LET w == W(e)
      ex == ExpectedSub(w, e.i, e.c, e.cc)
  IN /\ e.n = Len(ex)
     /\ e.idx = ex
     /\ e.range = ex
     /\ e.rsize = Len(ex)
     /\ e.cc >= e.c => e.contains = [k \in 1..Size(w, e.cc) |-> \E j \in 1..Len(ex) : ex[j] = k - 1]

VolOk(e) == Near(<<1, VolDen[W(e)]>>, e.v, Tol(e))
PosOk(e) == NearVec(Position(W(e), e.i, e.c), e.x, Tol(e))
NormalOk(e) == NearVec([k \in 1..e.dim |-> <<Normals[W(e)][e.f + 1][k], 1>>], e.n, Tol(e))
IntRows(M) == [r \in 1..Len(M) |-> [k \in 1..Len(M[r]) |-> <<M[r][k], 1>>]]
EmbOk(e) ==
  LET w == W(e)
      P == CellCorners(w, e.i, e.c)
  IN /\ IsType(e.type, CellOf(w, e.i, e.c).w)
     /\ NearMat(IntRows(P), e.corners, Tol(e))
     /\ NearVec([k \in 1..Len(P[1]) |-> <<P[1][k], 1>>], e.origin, Tol(e))
     /\ NearMat(IntRows(Embedding(w, e.i, e.c)), e.jt, Tol(e))
InsideOk(e) ==
  /\ Len(e.pts) = Len(e.res)
  /\ \A k \in 1..Len(e.pts) : e.res[k] = Inside(W(e), e.pts[k], e.m)

RefVerdict(e) ==
  IF ~ValidRef(e) THEN "bad event"
  ELSE CASE e.op = "topo"   -> IF TopoOk(e) THEN "ok" ELSE "sizes or type of the element"
         [] e.op = "type"   -> IF TypeOk(e) THEN "ok" ELSE "type of a sub-entity"
         [] e.op = "sub"    -> IF SubOk(e) THEN "ok" ELSE "numbers of sub-sub-entities"
         [] e.op = "vol"    -> IF VolOk(e) THEN "ok" ELSE "volume"
         [] e.op = "pos"    -> IF PosOk(e) THEN "ok" ELSE "position of a sub-entity"
         [] e.op = "normal" -> IF NormalOk(e) THEN "ok" ELSE "integration outer normal"
         [] e.op = "emb"    -> IF EmbOk(e) THEN "ok" ELSE "embedding of a sub-entity"
         [] e.op = "inside" -> IF InsideOk(e) THEN "ok" ELSE "inside test"
         [] OTHER -> "unknown event"
=============================================================================

------------------------------- MODULE TrIso -------------------------------
(* Conformance of threads that work on objects of their own: every answer   *)
(* is the one of the exact map of the object the thread holds, whatever the *)
(* other threads were in the middle of.                                     *)
EXTENDS GeomMaps, TraceBase

ObjWord(b) == WordOf(b.m, b.id)
ObjCorners(b) == TLCEval([k \in 1..Len(b.corners) |-> TLCEval([a \in 1..Len(b.corners[k]) |-> Rat(b.corners[k][a], b.cden)])])
ObjAt(b, C, x) ==
  CASE b.kind = "ml" -> MLAt(ObjWord(b), C, x)
    [] b.kind = "mapped" -> MappedAt(ObjWord(b), C, b.poly, b.n, b.m, b.c, x)
    [] b.kind = "lfe" -> LFEAt(b.coef, b.basis, b.bden, b.m, b.c, x)
(* all that is needed to judge answers about the object b *)
Known(b, den) ==
  LET w == ObjWord(b)
      C == IF b.kind = "lfe" THEN <<>> ELSE ObjCorners(b)
      M(e, x) == ObjAt(b, C, x)
      CC == TLCEval([k \in 1..Len(Corners[w]) |-> M(b, RefCorners(w)[k]).val])
      aff == CASE b.kind = "ml" -> IsAffine(w, C)
               [] b.kind = "mapped" -> b.deg = 1 /\ IsAffine(w, C)
               [] b.kind = "lfe" -> b.order <= 1 /\ IsAffine(w, CC)
      cen == TLCEval(M(b, CellCentre(w)))
      cD == MatDen(cen.jt)
      nodes == IF b.m = b.c /\ ~aff /\ b.kind # "ml" THEN BooleTab[w] ELSE <<>>
  IN TLCEval([w |-> w, aff |-> aff, said |-> IF b.kind = "mapped" THEN b.told ELSE aff, cen |-> cen,
      vol |-> IF aff \/ b.kind = "ml" THEN "centre" ELSE IF b.m = b.c THEN "integral" ELSE "none",
      vgram |-> GramBig(MatNum(cen.jt, cD), b.c), vscale |-> BigMulSmall(BigPow(cD, b.m), VolDen[w]),
      C |-> C,
      pt |-> TLCEval([p \in 1..2 |->
        LET x == TLCEval([a \in 1..b.m |-> Rat(b.pts[p][a], den)])
            mp == M(b, x)
            D == MatDen(mp.jt)
        IN [x |-> x, mp |-> mp, D |-> D, N |-> MatNum(mp.jt, D), gram |-> GramBig(MatNum(mp.jt, D), b.c), scale |-> BigPow(D, b.m)]])])
VolumeRight(b, g, a) ==
  LET M(e, x) == ObjAt(b, g.C, x)
  IN CASE g.vol = "centre" -> NearRoot(g.vgram, g.vscale, a, TolFor(b.ct, a[1] + 1))
       [] g.vol = "integral" -> VolumeIs(b, g.w, M, a)
       [] OTHER -> a[1] >= 0
AnswerRight(q, a, b, g, pp) ==
  LET tol == TolFor(b.ct, 200) IN
  CASE a = <<>> -> FALSE
    [] q = 0 -> NearVec(pp.mp.val, a, tol)
    [] q = 1 -> Len(a) = b.m /\ \A k \in 1..b.m : Near(pp.x[k], a[k], 20)
    [] q = 2 -> NearRoot(pp.gram, pp.scale, a[1], TolFor(b.ct, a[1][1] + 1))
    [] q = 3 -> NearMat(pp.mp.jt, a, tol)
    [] q = 4 -> InverseOk(pp.N, pp.D, a, b.m, b.c, b.ct)
    [] q = 5 -> VolumeRight(b, g, a[1])
    [] q = 6 -> NearVec(g.cen.val, a, tol)
    [] q = 7 -> a[1] = g.said
    [] q = 8 -> NearMat(Transposed(pp.mp.jt, b.c), a, tol)
    [] q = 9 -> InverseOk(pp.N, pp.D, Transposed(a, b.c), b.m, b.c, b.ct)

(* the steps <<1, t, f, p, answer>> and <<2, t, u, 0, .>> of Isolate as they ended *)
RunRight(run, e, G) ==
  LET RECURSIVE Follow(_, _)
      Follow(own, k) ==
        IF k > Len(run.acts) THEN "ok"
        ELSE LET s == run.acts[k]
             IN CASE s[1] = 2 -> Follow([own EXCEPT ![s[2]] = own[s[3]]], k + 1)
                  [] s[1] = 1 -> LET i == own[s[2]]
                                 IN IF AnswerRight(s[3], s[5], e.objs[i], G[i], G[i].pt[s[4]]) THEN Follow(own, k + 1)
                                    ELSE "an answer depends on other threads"
                  [] OTHER -> "malformed"
  IN IF run.hang THEN "threads wait for each other" ELSE Follow(run.start, 1)
RunsVerdict(e) ==
  LET G == TLCEval([i \in 1..Len(e.objs) |-> Known(e.objs[i], e.den)])
      V == TLCEval([k \in 1..Len(e.runs) |-> RunRight(e.runs[k], e, G)])
  IN FirstBad(V, 1)
(* what all threads walk through is what one alone walks through *)
WalksVerdict(e) ==
  IF \A t \in 1..Len(e.seen) : e.seen[t] = e.alone THEN "ok" ELSE "a refinement depends on other threads"
IsoVerdict(e) == CASE e.op = "runs" -> RunsVerdict(e) [] e.op = "walks" -> WalksVerdict(e) [] OTHER -> "unknown event"
=============================================================================

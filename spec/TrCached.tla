------------------------------ MODULE TrCached -----------------------------
(* Conformance of histories of cached geometries: every answer is the one   *)
(* of the exact map of the geometry the register holds.                    *)
EXTENDS Geom, TraceBase

QAnswer(q, a, e, gg, pp) ==
  LET m == e.m
      c == e.c
      tol == TolFor(e.ct, 60)
      x == pp.x
      mp == pp.mp
      D == pp.D
      N == pp.N
      rtol(o) == TolFor(e.ct, o[1] + 1) * (IF e.ct = "float" THEN 4 ELSE 1)
  IN CASE q = 0 -> NearVec(mp.val, a, tol)
       [] q = 1 -> Len(a) = m /\ \A k \in 1..m : Near(x[k], a[k], IF e.ct = "float" THEN 5000 ELSE 20)
       [] q = 2 -> NearRoot(pp.gram, pp.scale, a[1], rtol(a[1]))
       [] q = 3 -> NearMat(mp.jt, a, tol)
       [] q = 4 -> InverseOk(N, D, a[1], m, c, e.ct) /\ NearRoot(pp.gram, pp.scale, a[2], rtol(a[2]))
       [] q = 5 -> NearRoot(gg.vgram, gg.vscale, a[1], rtol(a[1]))
       [] q = 6 -> NearVec(gg.cen.val, a, tol)
       [] q = 7 -> a[1] = gg.aff
       [] q = 8 -> NearMat(Transposed(mp.jt, c), a, tol)
       [] q = 9 -> InverseOk(N, D, Transposed(a, c), m, c, e.ct)

CachedOk(e) ==
  LET G == TLCEval([g \in 1..3 |->
             LET w == WordOf(e.m, e.geos[g].id)
                 C == TLCEval([k \in 1..Len(e.geos[g].corners) |-> [a \in 1..e.c |-> RInt(e.geos[g].corners[k][a])]])
                 at(x) == LET S == TLCEval(Shape(w, x)) IN TLCEval([val |-> InterpValue(S, C), jt |-> InterpJacT(S, C)])
                 cen == TLCEval(at(CellCentre(w)))
                 cD == MatDen(cen.jt)
             IN [w |-> w, aff |-> IsAffine(w, C), cen |-> cen,
                 vgram |-> GramBig(MatNum(cen.jt, cD), e.c), vscale |-> BigMulSmall(BigPow(cD, e.m), VolDen[w]),
                 pt |-> TLCEval([p \in 1..2 |->
                   LET x == TLCEval([a \in 1..e.m |-> Rat(e.geos[g].pts[p][a], e.den)])
                       mp == at(x)
                       D == MatDen(mp.jt)
                   IN [x |-> x, mp |-> mp, D |-> D, N |-> MatNum(mp.jt, D),
                       gram |-> GramBig(MatNum(mp.jt, D), e.c), scale |-> BigPow(D, e.m)]])]])
      RECURSIVE Run(_, _)
      Run(reg, k) ==
        IF k > Len(e.log) THEN "ok"
        ELSE LET s == e.log[k].s
             IN IF s[1] < 10
                THEN LET gg == G[reg[s[2]]]
                         pp == gg.pt[e.log[k].p]
                     IN IF QAnswer(s[1], e.log[k].a, e, gg, pp)
                        THEN Run(reg, k + 1) ELSE "answer depends on the history"
                ELSE Run(CASE s[1] \in {10, 11, 13} -> [reg EXCEPT ![s[2]] = reg[s[3]]]
                           [] s[1] = 12 -> [reg EXCEPT ![s[2]] = reg[s[3]], ![s[3]] = reg[s[2]]]
                           [] s[1] = 14 -> [reg EXCEPT ![s[2]] = s[3]], k + 1)
  IN IF Len(e.start) # 2 THEN "malformed" ELSE Run(e.start, 1)

CachedVerdict(e) == IF e.op = "cached" THEN CachedOk(e) ELSE "unknown event"
=============================================================================

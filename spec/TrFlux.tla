------------------------------- MODULE TrFlux ------------------------------
(* Conformance of integrals over elements, facets and edges. *)
EXTENDS Flux, TraceBase

FxTol(q) == 20 + Abs(q[1]) \div (q[2] * 20)
FxPoly(terms) ==
  LET D == {terms[t][2] : t \in 1..Len(terms)}
  IN PTrim([e \in D |-> SumSeq([t \in 1..Len(terms) |-> IF terms[t][2] = e THEN terms[t][1] ELSE 0])])
FxGiven(e) ==
  IF e.poly THEN TLCEval([a \in 1..e.m |-> FxPoly(e.map[a])])
  ELSE MapPoly(WordOf(e.m, e.id), e.corners)
FxRight(q, o, scale) == Near(q, o, FxTol(q) + scale)
FxField(w, Y, J, sg, f, own) ==
  LET nf == Size(w, 1)
      flux == TLCEval([i \in 1..nf |-> LET q == FacetFlux(w, Y, J, f.a, f.k, i - 1) IN IF sg < 0 THEN RNeg(q) ELSE q])
      v == LET q == VolumeOf(w, Y, J, f.a, f.k) IN IF sg < 0 THEN RNeg(q) ELSE q
      (* terms cancel inside of an integral: errors are relative to the largest of them *)
      big == FoldLeft(LAMBDA acc, q : Max2(acc, Abs(q[1]) \div (q[2] * 20)), 0, flux)
      m == Len(w)
      rise == TLCEval([i \in 1..Size(w, m - 1) |-> RInt(EdgeRise(w, Y, f.a, i - 1))])
      top == FoldLeft(LAMBDA acc, j : Max2(acc, Abs(Power(ValueAt(Y, Corners[w][j]), f.a)) \div 20), 0, [j \in 1..Len(Corners[w]) |-> j])
  IN IF ~(FxRight(v, f.vol, big) /\ FxRight(v, f.vol2, big)) THEN "volume integral"
     ELSE IF Len(f.fac) # nf \/ (own = 1 /\ Len(f.fac2) # nf) THEN "number of facets"
     ELSE IF \E i \in 1..nf : ~FxRight(flux[i], f.fac[i], big) THEN "flux through a facet"
     ELSE IF own = 1 /\ \E i \in 1..nf : ~FxRight(flux[i], f.fac2[i], big) THEN "flux through a facet of its own"
     ELSE IF Len(f.edge) # Len(rise) \/ \E i \in 1..Len(rise) : ~FxRight(rise[i], f.edge[i], top) THEN "work along an edge"
     ELSE IF RSum(flux) # v THEN "fluxes do not add up"
     ELSE "ok"
FluxEvent(e) ==
  LET w == WordOf(e.m, e.id)
      Y == FxGiven(e)
      J == PJacobian(Y, e.m)
      sg == OrientAt(J, w)
      res == TLCEval([i \in 1..Len(e.fields) |-> FxField(w, Y, J, sg, e.fields[i], e.own)])
  IN IF sg = 0 THEN "malformed"
     ELSE IF \E i \in 1..Len(res) : res[i] # "ok" THEN res[CHOOSE i \in 1..Len(res) : res[i] # "ok"] \o ": " \o e.cls
     ELSE "ok"
FluxVerdict(e) == IF e.op = "flux" THEN FluxEvent(e) ELSE "unknown event"
=============================================================================

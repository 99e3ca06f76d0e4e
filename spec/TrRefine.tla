------------------------------ MODULE TrRefine -----------------------------
(* Conformance of refinements. *)
EXTENDS Lattice, Integrals, IterOps, TraceBase
Snap(o, n) == o[1] * n + (((o[2] \div 1000) * n + 500000) \div 1000000)
RefTol(ct) == IF ct = "float" THEN 2000 ELSE 4
OnLattice(p, n, tol) == \A k \in 1..Len(p) : Abs(p[k][1]) < 1000 /\ Near(Rat(Snap(p[k], n), n), p[k], tol)
SnapAll(p, n) == TLCEval([k \in 1..Len(p) |-> Snap(p[k], n)])
CentreNear(C, n, p, tol) ==          \* integer corners; the observed point is their mean
  \A k \in 1..Len(p) : Near(Rat(SumSeq([i \in 1..Len(C) |-> C[i][k]]), n * Len(C)), p[k], tol)
(* v = <<index, coordinates, corners>>, e = <<index, vertex indices, coordinates, corners, type, centre, volume>> *)
NumberingVerdict(e) ==
  LET tol == RefTol(e.ct)
      w == WordOf(e.m, e.id)
      c == WordOf(e.m, e.to)
      n == e.n
      nc == Len(Corners[c])
      V == e.v
      E == e.e
      P == TLCEval([k \in 1..Len(V) |-> SnapAll(V[k][2], n)])
      C(k) == TLCEval([i \in 1..nc |-> SnapAll(E[k][4][i], n)])
  IN IF Len(V) # e.nv \/ Len(E) # e.ne \/ e.nv < 1 \/ e.ne < 1 THEN "announced and enumerated numbers differ"
     ELSE IF \E k \in 1..Len(V) : V[k][1] # k - 1 THEN "vertex index"
     ELSE IF \E k \in 1..Len(E) : E[k][1] # k - 1 THEN "element index"
     ELSE IF \E k \in 1..Len(V) : ~OnLattice(V[k][2], n, tol) THEN "vertex not on the lattice"
     ELSE IF \E k \in 1..Len(V) : Len(V[k][3]) # 1 \/ ~NearVec([j \in 1..e.m |-> Rat(P[k][j], n)], V[k][3][1], tol) THEN "vertex and its geometry differ"
     ELSE IF \E k \in 1..Len(E) : ~SameShape(WordOf(e.m, E[k][5]), c) \/ Len(E[k][4]) # nc THEN "type of the element"
     ELSE IF \E k \in 1..Len(E) : Len(E[k][2]) # nc \/ \E i \in 1..nc : E[k][2][i] \notin 0..(e.nv - 1) THEN "vertex indices of an element"
     ELSE IF \E k \in 1..Len(E) : \E i \in 1..nc : ~OnLattice(E[k][4][i], n, tol) THEN "corner not on the lattice"
     ELSE IF \E k \in 1..Len(E) : Cardinality(Range(E[k][2])) # nc \/ {P[E[k][2][i] + 1] : i \in 1..nc} # Range(C(k)) THEN "corners and vertex indices differ"
     ELSE IF \E k \in 1..Len(E) : ~CentreNear(C(k), n, E[k][3], tol) THEN "coordinates of an element"
     ELSE IF \E k \in 1..Len(E) : ~CentreNear(C(k), n, E[k][6], tol) THEN "centre of the geometry"
     ELSE IF UNION {Range(E[k][2]) : k \in 1..Len(E)} # 0..(e.nv - 1) THEN "a vertex of no element"
     ELSE "ok"
TilingVerdict(e) ==
  LET tol == RefTol(e.ct)
      w == WordOf(e.m, e.id)
      c == WordOf(e.m, e.to)
      n == e.n
      nc == Len(Corners[c])
      E == e.e
      L == TLCEval([k \in 1..Len(E) |-> TLCEval([i \in 1..Len(E[k][4]) |-> SnapAll(E[k][4][i], n)])])
      Vol(k) == IF IsSimplexWord(c) THEN Rat(Abs(IDet(EdgesOf(L[k]))), Fact(e.m) * Pow(n, e.m)) ELSE Rat(1, Pow(n, e.m))
  IN IF Len(E) # ElementCount(w, c, n) THEN "number of elements"
     ELSE IF \E k \in 1..Len(E) : Len(E[k][4]) # nc \/ \E i \in 1..nc : Len(E[k][4][i]) # e.m \/ ~OnLattice(E[k][4][i], n, tol) THEN "corner not on the lattice"
     ELSE IF \E k \in 1..Len(e.v) : ~OnLattice(e.v[k][2], n, tol) \/ ~InCell(w, SnapAll(e.v[k][2], n), n) THEN "vertex outside of the element or not on the lattice"
     ELSE IF \E k \in 1..Len(L) : \E i \in 1..nc : ~InCell(w, L[k][i], n) THEN "corner outside of the element"
     ELSE IF \E k \in 1..Len(E) : ~Near(Vol(k), E[k][7], tol) THEN "volume of an element"
     ELSE IF e.m = 1 \/ IsSimplexWord(c) THEN TilesBySimplices(w, L, n)
     ELSE TilesByCubes(w, L, n)

(* many intervals: e = <<place, index, vertex indices, coordinates, corners, type, centre, volume>> for some sub-elements, *)
(* v = <<index, coordinates, corners>> for the vertices they name, p = <<point in 1 / (n scale), places of those that have it>> *)
FarNumberingVerdict(e) ==
  LET tol == RefTol(e.ct)
      c == WordOf(e.m, e.to)
      n == e.n
      nc == Len(Corners[c])
      E == e.e
      seen == {e.v[k][1] : k \in 1..Len(e.v)}
      At == TLCEval([x \in seen |-> SnapAll(e.v[CHOOSE k \in 1..Len(e.v) : e.v[k][1] = x][2], n)])
      C(k) == TLCEval([i \in 1..nc |-> SnapAll(E[k][5][i], n)])
  IN IF e.wv # e.nv \/ e.we # e.ne \/ e.nv < 1 \/ e.ne < 1 THEN "announced and enumerated numbers differ"
     ELSE IF e.oddv # -1 THEN "vertex index"
     ELSE IF e.odde # -1 \/ \E k \in 1..Len(E) : E[k][2] # E[k][1] THEN "element index"
     ELSE IF \E k \in 1..Len(e.v) : ~OnLattice(e.v[k][2], n, tol) THEN "vertex not on the lattice"
     ELSE IF \E k \in 1..Len(e.v) : Len(e.v[k][3]) # 1 \/ ~NearVec([j \in 1..e.m |-> Rat(At[e.v[k][1]][j], n)], e.v[k][3][1], tol) THEN "vertex and its geometry differ"
     ELSE IF \E k \in 1..Len(E) : ~SameShape(WordOf(e.m, E[k][6]), c) \/ Len(E[k][5]) # nc THEN "type of the element"
     ELSE IF \E k \in 1..Len(E) : Len(E[k][3]) # nc \/ \E i \in 1..nc : E[k][3][i] \notin seen THEN "vertex indices of an element"
     ELSE IF \E k \in 1..Len(E) : \E i \in 1..nc : ~OnLattice(E[k][5][i], n, tol) THEN "corner not on the lattice"
     ELSE IF \E k \in 1..Len(E) : Cardinality(Range(E[k][3])) # nc \/ {At[E[k][3][i]] : i \in 1..nc} # Range(C(k)) THEN "corners and vertex indices differ"
     ELSE IF \E k \in 1..Len(E) : ~CentreNear(C(k), n, E[k][4], tol) THEN "coordinates of an element"
     ELSE IF \E k \in 1..Len(E) : ~CentreNear(C(k), n, E[k][7], tol) THEN "centre of the geometry"
     ELSE "ok"
FarTilingVerdict(e) ==
  LET tol == RefTol(e.ct)
      w == WordOf(e.m, e.id)
      c == WordOf(e.m, e.to)
      n == e.n
      nc == Len(Corners[c])
      E == e.e
      sim == e.m = 1 \/ IsSimplexWord(c)
      L == TLCEval([k \in 1..Len(E) |-> TLCEval([i \in 1..Len(E[k][5]) |-> SnapAll(E[k][5][i], n)])])
      Vol(k) == IF sim THEN Rat(Abs(IDet(EdgesOf(L[k]))), Fact(e.m) * Pow(n, e.m)) ELSE Rat(1, Pow(n, e.m))
      OneStep(k) == \A j \in 1..e.m : MaxOf({L[k][i][j] : i \in 1..nc}) - MinOf({L[k][i][j] : i \in 1..nc}) \in {1, 2}
      Alone(p) == Len(p[2]) = 1 /\ \E k \in 1..Len(E) : E[k][1] = p[2][1] /\ PieceOver(L[k], p[1], e.scale, sim)
  IN IF e.we # ElementCount(w, c, n) THEN "number of elements"
     ELSE IF \E k \in 1..Len(E) : Len(E[k][5]) # nc \/ \E i \in 1..nc : Len(E[k][5][i]) # e.m \/ ~OnLattice(E[k][5][i], n, tol) THEN "corner not on the lattice"
     ELSE IF \E k \in 1..Len(e.v) : ~OnLattice(e.v[k][2], n, tol) \/ ~InCell(w, SnapAll(e.v[k][2], n), n) THEN "vertex outside of the element or not on the lattice"
     ELSE IF \E k \in 1..Len(L) : \E i \in 1..nc : ~InCell(w, L[k][i], n) THEN "corner outside of the element"
     ELSE IF \E k \in 1..Len(L) : ~OneStep(k) THEN "longer than a cell of the lattice"
     ELSE IF ~sim /\ \E k \in 1..Len(L) : ~IsUnitCube(L[k]) THEN "not a cell of the lattice"
     ELSE IF sim /\ \E k \in 1..Len(L) : Abs(IDet(EdgesOf(L[k]))) * VolDen[w] * Pieces(w, c) # Fact(e.m) THEN "another volume than the others"
     ELSE IF \E k \in 1..Len(E) : ~Near(Vol(k), E[k][8], tol) THEN "volume of an element"
     ELSE IF \E k \in 1..Len(e.p) : ~InCell(w, e.p[k][1], n * e.scale) THEN "malformed"
     ELSE IF \E k \in 1..Len(e.p) : ~Alone(e.p[k]) THEN "a point that is not in exactly one sub-element"
     ELSE "ok"

(* the sub-elements fit together, on the facets, and into those of fewer intervals *)
Ints(E, n) == TLCEval([k \in 1..Len(E) |-> TLCEval([i \in 1..Len(E[k]) |-> SnapAll(E[k][i], n)])])
AllOnLattice(E, m, n, tol) == \A k \in 1..Len(E) : \A i \in 1..Len(E[k]) : Len(E[k][i]) = m /\ OnLattice(E[k][i], n, tol)
FittingVerdict(e) ==
  LET tol == RefTol(e.ct)
      w == WordOf(e.m, e.id)
      c == WordOf(e.m, e.to)
      n == e.n
      sim == IsSimplexWord(c)
      (* the simplices of a four-dimensional cube are each refined on their own *)
      alone == e.m > 3 /\ sim /\ ~IsSimplexWord(w) /\ n > 1
      L == Ints(e.coarse, n)
      F == Ints(e.fine, 2 * n)
      Rest(f) ==
        LET cell == CellOf(w, f - 1, 1)
            own == {k \in 1..Len(e.facets) : SameShape(WordOf(e.m - 1, e.facets[k][1]), cell.w)
                       /\ (e.m = 2 \/ IsSimplexWord(WordOf(e.m - 1, e.facets[k][2])) = sim)}
        IN IF own = {} THEN FALSE
           (* on the squares of a prism either diagonal may be taken *)
           ELSE RestrictsTo(w, f, L, n, Ints(e.facets[MinOf(own)][3], n), IsPrism3(w) /\ Len(cell.v) = 4)
  IN IF ~AllOnLattice(e.coarse, e.m, n, tol) \/ ~AllOnLattice(e.fine, e.m, 2 * n, tol) \/ \E k \in 1..Len(e.facets) : ~AllOnLattice(e.facets[k][3], e.m - 1, n, tol) THEN "corner not on the lattice"
     ELSE IF sim /\ ~alone /\ ~Matched(w, L, n) THEN "sub-elements do not share whole facets"
     ELSE IF ~alone /\ \E f \in 1..Size(w, 1) : ~Rest(f) THEN "not the refinement of the facet"
     ELSE IF \E k \in 1..Len(F) : ~\E j \in 1..Len(L) : PieceHas(L[j], F[k], sim) THEN "not nested"
     ELSE "ok"

BuildVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      c == WordOf(e.m, e.to)
  IN IF ~Refinable(w, c) THEN (IF e.out = "refused" THEN "ok" ELSE "a refinement that does not exist")
     ELSE IF e.out = "refused" THEN "refused"
     ELSE IF e.ne # ElementCount(w, c, 2) \/ e.nv < 1 THEN "the refinement of another type"
     ELSE "ok"
RuntimeVerdict(e) ==
  IF e.counts # e.counts2 THEN "numbers"
  ELSE IF e.v # e.v2 THEN "vertices"
  ELSE IF e.e # e.e2 THEN "elements"
  ELSE "ok"

ShownAs(R, N, table, obs) ==
  \A x \in 1..Len(R) :
    /\ \A y \in 1..Len(R) : obs[x][1][y] = (IF R[x] = R[y] THEN 1 ELSE 2)
    /\ R[x] < N => obs[x][2] = table[R[x] + 1]
RECURSIVE IterOk(_, _, _)
IterOk(e, R, k) ==
  IF k > Len(e.obs) THEN TRUE
  ELSE LET s == IterStep(R, e.N, e.steps[3 * k - 2], e.steps[3 * k - 1] + 1, e.steps[3 * k] + 1)
       IN ShownAs(s, e.N, e.table, e.obs[k]) /\ IterOk(e, TLCEval(s), k + 1)
IteratorsVerdict(e) ==
  IF Len(e.table) # e.N \/ \E k \in 1..Len(e.table) : e.table[k][1] # k - 1 THEN "plain iteration"
  ELSE IF 3 * Len(e.obs) # Len(e.steps) THEN "incomplete"
  ELSE IF ~IterOk(e, [k \in 1..e.regs |-> 0], 1) THEN "an iterator is not where it should be"
  ELSE "ok"

(* where = <<type, type of the pieces, intervals, place>>; rows = those found equal *)
Place(p) == <<p[1] \div 2, p[2] \div 2, p[3], p[4]>>
PlacesVerdict(e) ==
  LET n == Len(e.where)
      P == TLCEval([k \in 1..n |-> Place(e.where[k])])
      Same(k) == {j \in 1..n : P[j] = P[k]}
  IN IF Len(e.rows) # n THEN "incomplete"
     ELSE IF \E k \in 1..n : Range(e.rows[k][1]) # Same(k) \/ Range(e.rows[k][2]) # Same(k) THEN "equality of iterators"
     ELSE "ok"

(* composite rules *)
CompTol(ct) == IF ct = "float" THEN 4000 ELSE 8
(* n p = c0 + sum of b_j (c_j - c0), c in lattice units *)
Transported(p, n, C, b, tol) ==
  \A k \in 1..Len(p) :
    LET N == [j \in 1..(Len(b) + 1) |-> IF j <= Len(b) THEN C[1][k] - C[j + 1][k] ELSE n]
    IN LinNear(N, Append(b, p[k]), C[1][k], n * tol)
(* w = b / n^d *)
WeightOk(w, b, n, d, tol) == LinNear(<<Pow(n, d), -1>>, <<w, b>>, 0, Pow(n, d) * tol)
CompositeVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      tol == CompTol(e.ct)
      n == e.n
      nb == Len(e.basepts)
      E == TLCEval([k \in 1..Len(e.elems) |-> TLCEval([i \in 1..(e.m + 1) |-> SnapAll(e.elems[k][i], n)])])
      Is(j, el, b) == WeightOk(e.pts[j][2], e.basew[b], n, e.m, tol) /\ Transported(e.pts[j][1], n, E[el], e.basepts[b], tol)
      Straight(j) == LET i == e.which[j] IN Is(j, (i \div nb) + 1, (i % nb) + 1)
  IN IF e.size # nb * Pow(n, e.m) \/ Len(e.elems) # Pow(n, e.m) THEN "number of points"
     ELSE IF e.order # e.base THEN "order"
     ELSE IF e.tdim # e.m \/ e.tnone \/ ~SameShape(WordOf(e.m, e.tid), w) THEN "type"
     ELSE IF \E k \in 1..Len(e.walks) : Len(e.walks[k][1]) # e.base THEN "the recorded walk is too short"
     ELSE IF \E k \in 1..Len(e.walks) : ~RatioOk(One, e.walks[k][2][1], RuleMeasure(e.m, e.id, e.qt), MomentTol(e.ct, 0)) THEN "sum of weights"
     ELSE IF \E k \in 1..Len(e.walks) : ~WalkOk(e, e.walks[k][1], e.walks[k][2], [j \in 1..e.m |-> 0], 1) THEN "integral of a monomial"
     ELSE IF \E j \in 1..Len(e.pts) : ~PointIn(w, e.pts[j][1], tol) THEN "point outside of the element"
     ELSE IF \E j \in 1..Len(e.pts) : ~Straight(j) /\ ~\E el \in 1..Len(E) : \E b \in 1..nb : Is(j, el, b) THEN "not a point of the base rule in a sub-element"
     ELSE "ok"

RefineVerdict(e) ==
  CASE e.op = "numbering" -> NumberingVerdict(e)
    [] e.op = "tiling" -> TilingVerdict(e)
    [] e.op = "farnumbering" -> FarNumberingVerdict(e)
    [] e.op = "fartiling" -> FarTilingVerdict(e)
    [] e.op = "fitting" -> FittingVerdict(e)
    [] e.op = "build" -> BuildVerdict(e)
    [] e.op = "runtime" -> RuntimeVerdict(e)
    [] e.op = "iterators" -> IteratorsVerdict(e)
    [] e.op = "places" -> PlacesVerdict(e)
    [] e.op = "composite" -> CompositeVerdict(e)
    [] OTHER -> "unknown event"
=============================================================================

------------------------------ MODULE RefTopo ------------------------------
(***************************************************************************)
(* Reference elements.  A topology is a word of construction steps over    *)
(* {0,1}: starting from the point, step 1 (prism) extrudes the cell, step  *)
(* 0 (pyramid) cones it; over the point both give the line, so the first   *)
(* letter is irrelevant.  The state of the construction is the cell        *)
(* complex: for every codimension the ordered list of cells, each cell     *)
(* with its ordered vertices and its own word, and the corner coordinates. *)
(***************************************************************************)
EXTENDS Num

CONSTANT MaxDim

Words(d) == [1..d -> {0, 1}]
AllWords == UNION {Words(d) : d \in 0..MaxDim}
WordOf(dim, id) == [k \in 1..dim |-> Bit(id, k - 1)]
IdOf(w) == SumSeq([k \in 1..Len(w) |-> w[k] * Pow(2, k - 1)])
SameShape(v, w) == Len(v) = Len(w) /\ \A k \in 2..Len(v) : v[k] = w[k]
IsSimplexWord(w) == \A k \in 2..Len(w) : w[k] = 0
IsCubeWord(w) == \A k \in 2..Len(w) : w[k] = 1

(* ---- the cell complex ---- *)
Cell(v, w) == [v |-> v, w |-> w]
PointComplex == <<<<Cell(<<0>>, <<>>)>>>>          \* complex[c+1] = cells of codim c
NumV(cx) == Len(cx[Len(cx)])
CellsAt(cx, c) == IF c >= 0 /\ c < Len(cx) THEN cx[c + 1] ELSE <<>>

PrismOver(cx) ==
  LET d == Len(cx)                                  \* dimension of the prism
      nv == NumV(cx)
      lift(c) == [k \in DOMAIN c |-> c[k] + nv]
  IN TLCEval([c1 \in 1..(d + 1) |->
       LET c == c1 - 1
       IN [k \in 1..Len(CellsAt(cx, c)) |->
             LET b == CellsAt(cx, c)[k] IN Cell(b.v \o lift(b.v), Append(b.w, 1))]
          \o CellsAt(cx, c - 1)
          \o [k \in 1..Len(CellsAt(cx, c - 1)) |->
                LET b == CellsAt(cx, c - 1)[k] IN Cell(lift(b.v), b.w)]])

PyramidOver(cx) ==
  LET d == Len(cx)
      apex == NumV(cx)
  IN TLCEval([c1 \in 1..(d + 1) |->
       LET c == c1 - 1
       IN CellsAt(cx, c - 1)
          \o (IF c = d THEN <<Cell(<<apex>>, <<>>)>>
              ELSE [k \in 1..Len(CellsAt(cx, c)) |->
                     LET b == CellsAt(cx, c)[k] IN Cell(Append(b.v, apex), Append(b.w, 0))])])

Extend(cx, step) == IF step = 1 THEN PrismOver(cx) ELSE PyramidOver(cx)

PointCorners == <<<<>>>>
ExtendCorners(P, step) ==
  LET up(z) == [k \in 1..Len(P) |-> Append(P[k], z)]
  IN TLCEval(IF step = 1 THEN up(0) \o up(1)
             ELSE Append(up(0), Append([k \in 1..Len(P[1]) |-> 0], 1)))

(* reciprocal of the volume *)
ExtendVol(k, d, step) == IF step = 1 THEN k ELSE k * d

RECURSIVE Build(_)
Build(w) == IF w = <<>> THEN PointComplex
            ELSE Extend(Build(SubSeq(w, 1, Len(w) - 1)), w[Len(w)])
RECURSIVE BuildCorners(_)
BuildCorners(w) == IF w = <<>> THEN PointCorners
                   ELSE ExtendCorners(BuildCorners(SubSeq(w, 1, Len(w) - 1)), w[Len(w)])
RECURSIVE BuildVol(_)
BuildVol(w) == IF w = <<>> THEN 1
               ELSE ExtendVol(BuildVol(SubSeq(w, 1, Len(w) - 1)), Len(w), w[Len(w)])

(* tables, evaluated once *)
Complex == TLCEval([w \in AllWords |-> Build(w)])
Corners == TLCEval([w \in AllWords |-> BuildCorners(w)])
VolDen  == TLCEval([w \in AllWords |-> BuildVol(w)])
VSet(cell) == {cell.v[k] : k \in 1..Len(cell.v)}
(* vertex set -> index, per word and codimension *)
IndexOf == TLCEval([w \in AllWords |-> [c1 \in 1..(Len(w) + 1) |->
             LET cells == Complex[w][c1]
                 sets == {VSet(cells[k]) : k \in 1..Len(cells)}
             IN [S \in sets |-> (CHOOSE k \in 1..Len(cells) : VSet(cells[k]) = S) - 1]]])

Size(w, c) == Len(Complex[w][c + 1])
CellOf(w, i, c) == Complex[w][c + 1][i + 1]
(* number of codim-cc sub-entities of sub-entity (i,c) *)
SubSize(w, i, c, cc) == Size(CellOf(w, i, c).w, cc - c)
SubEntity(w, i, c, ii, cc) ==
  LET cell == CellOf(w, i, c)
      own  == CellOf(cell.w, ii, cc - c)
      img  == {cell.v[own.v[k] + 1] : k \in 1..Len(own.v)}
  IN IndexOf[w][cc + 1][img]

----------------------------------------------------------------------------
(* ---- geometry of cells ---- *)
CellCorners(w, i, c) ==
  LET cell == CellOf(w, i, c) IN TLCEval([k \in 1..Len(cell.v) |-> Corners[w][cell.v[k] + 1]])
Position(w, i, c) ==
  LET P == CellCorners(w, i, c)
  IN [k \in 1..Len(w) |-> Rat(SumSeq([j \in 1..Len(P) |-> P[j][k]]), Len(P))]
UnitVec(d, k) == [j \in 1..d |-> IF j = k THEN 1 ELSE 0]
(* rows: images of the unit vectors of the cell's own reference element *)
Embedding(w, i, c) ==
  LET cell == CellOf(w, i, c)
      m == Len(cell.w)
      Q == Corners[cell.w]
      P == CellCorners(w, i, c)
      at(k) == CHOOSE j \in 1..Len(Q) : Q[j] = UnitVec(m, k)
  IN TLCEval([k \in 1..m |-> LET p == P[at(k)] IN [a \in 1..Len(w) |-> p[a] - P[1][a]]])
(* generalised cross product of d-1 integer vectors in Z^d *)
CrossProduct(J, d) ==
  TLCEval([a \in 1..d |->
     (IF a % 2 = 1 THEN 1 ELSE -1)
     * IDet([r \in 1..(d - 1) |-> [b \in 1..(d - 1) |-> J[r][IF b < a THEN b ELSE b + 1]]])])
OuterNormal(w, i) ==
  LET d == Len(w)
      n == CrossProduct(Embedding(w, i, 1), d)
      P == Corners[w]
      p0 == CellCorners(w, i, 1)[1]
      s == IDot(n, [k \in 1..d |-> Len(P) * p0[k] - SumSeq([j \in 1..Len(P) |-> P[j][k]])])
  IN IF s > 0 THEN n ELSE [k \in 1..d |-> -n[k]]
Normals == TLCEval([w \in AllWords |->
              IF w = <<>> THEN <<>> ELSE [f \in 1..Size(w, 1) |-> OuterNormal(w, f - 1)]])
FacetPoint == TLCEval([w \in AllWords |->
              IF w = <<>> THEN <<>> ELSE [f \in 1..Size(w, 1) |-> CellCorners(w, f - 1, 1)[1]]])
(* the point k/m lies in the closed cell *)
Inside(w, k, m) ==
  \A f \in 1..Len(Normals[w]) :
     IDot(Normals[w][f], [a \in 1..Len(w) |-> k[a] - m * FacetPoint[w][f][a]]) <= 0

=============================================================================

------------------------------- MODULE Lattice -----------------------------
(***************************************************************************)
(* Refinements of reference cells on the lattice of n intervals.  Sub-     *)
(* elements are given by integer corners (coordinates times n).            *)
(***************************************************************************)
EXTENDS RefTopo

IsPrism3(w) == Len(w) = 3 /\ w[2] = 0 /\ w[3] = 1
IsPyramid3(w) == Len(w) = 3 /\ w[2] = 1 /\ w[3] = 0
Refinable(w, c) ==
  /\ Len(w) >= 1
  /\ \/ IsSimplexWord(w) /\ IsSimplexWord(c)
     \/ IsCubeWord(w) /\ (IsSimplexWord(c) \/ IsCubeWord(c))
     \/ (IsPrism3(w) \/ IsPyramid3(w)) /\ IsSimplexWord(c)
(* in how many simplices a cell is cut before it is refined *)
Pieces(w, c) ==
  IF IsSimplexWord(w) \/ ~IsSimplexWord(c) THEN 1
  ELSE IF IsCubeWord(w) THEN Fact(Len(w))
  ELSE IF IsPrism3(w) THEN 3 ELSE 2
ElementCount(w, c, n) == Pieces(w, c) * Pow(n, Len(w))

Code(p, n) == FoldLeft(LAMBDA a, x : a * (n + 1) + x, 0, p)
InCell(w, p, n) == \A f \in 1..Len(Normals[w]) : IDot(Normals[w][f], p) <= n * IDot(Normals[w][f], FacetPoint[w][f])
OnFacet(w, f, p, n) == IDot(Normals[w][f], p) = n * IDot(Normals[w][f], FacetPoint[w][f])
EdgesOf(C) == TLCEval([i \in 1..(Len(C) - 1) |-> [k \in 1..Len(C[1]) |-> C[i + 1][k] - C[1][k]]])
Sorted(C, n) == SortSeq(C, LAMBDA a, b : Code(a, n) < Code(b, n))
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* facets with the side they are seen from; two elements that share a facet
   lie on different sides of it *)
Sides(C, n) ==
  LET S == TLCEval(Sorted(C, n))
      s == Sign(IDet(EdgesOf(S)))
  IN {<<TLCEval([i \in 1..(Len(S) - 1) |-> Code(Without(S, k)[i], n)]), s * (IF k % 2 = 0 THEN 1 ELSE -1)>> : k \in 1..Len(S)}
OnBoundary(w, C, k, n) == \E f \in 1..Len(Normals[w]) : \A i \in 1..Len(C) : i # k => OnFacet(w, f, C[i], n)

(* simplices with integer corners: every facet is shared by exactly two of
   them from different sides or lies on the boundary.  Then all points that
   lie on no facet are covered equally often. *)
Matched(w, L, n) ==
  LET d == Len(w)
      FS == UNION {Sides(L[i], n) : i \in 1..Len(L)}
      FC == {f[1] : f \in FS}
      B == SumSeq([i \in 1..Len(L) |-> Cardinality({k \in 1..(d + 1) : OnBoundary(w, L[i], k, n)})])
  IN /\ Cardinality(FS) = Len(L) * (d + 1)
     /\ 2 * Cardinality(FC) = Len(L) * (d + 1) + B

(* otherwise: generic points, one in each simplex, lie in no other one *)
Inner(C) == LET d == Len(C[1]) IN TLCEval([k \in 1..d |-> SumSeq([i \in 1..(d + 1) |-> Pow(2, i - 1) * C[i][k]])])   \* times 2^(d+1) - 1
SimplexHas(C, p, s) ==        \* p / s in the simplex
  LET d == Len(C[1])
      D == IDet(EdgesOf(C))
      Repl(k) == [i \in 1..(d + 1) |-> IF i = k THEN p ELSE [j \in 1..d |-> s * C[i][j]]]
  IN \A k \in 1..(d + 1) : Sign(IDet(EdgesOf(Repl(k)))) \in {0, Sign(D)}
Apart(L) ==
  LET d == Len(L[1][1])
      s == Pow(2, d + 1) - 1
      Lo(C, k) == MinOf({C[i][k] : i \in 1..(d + 1)})
      Hi(C, k) == MaxOf({C[i][k] : i \in 1..(d + 1)})
  IN \A i \in 1..Len(L) : LET p == Inner(L[i])
       IN \A j \in 1..Len(L) :
            (j # i /\ \A k \in 1..d : p[k] >= s * Lo(L[j], k) /\ p[k] <= s * Hi(L[j], k)) => ~SimplexHas(L[j], p, s)

TilesBySimplices(w, L, n) ==
  LET d == Len(w)
      dets == TLCEval([i \in 1..Len(L) |-> Abs(IDet(EdgesOf(L[i])))])
  IN IF \E i \in 1..Len(L) : dets[i] = 0 THEN "degenerate"
     ELSE IF SumSeq(dets) * VolDen[w] # Fact(d) * Pow(n, d) THEN "the volumes do not sum up"
     ELSE IF Matched(w, L, n) THEN "ok"
     ELSE IF Len(L) <= 400 /\ ~Apart(L) THEN "overlap"
     ELSE "ok"
CubeBase(C) == [k \in 1..Len(C[1]) |-> MinOf({C[i][k] : i \in 1..Len(C)})]
IsUnitCube(C) == LET b == CubeBase(C) IN
  /\ Cardinality({C[i] : i \in 1..Len(C)}) = Pow(2, Len(C[1]))
  /\ \A i \in 1..Len(C) : \A k \in 1..Len(C[1]) : C[i][k] \in {b[k], b[k] + 1}
TilesByCubes(w, L, n) ==
  IF \E i \in 1..Len(L) : ~IsUnitCube(L[i]) THEN "not a cell of the lattice"
  ELSE IF Cardinality({CubeBase(L[i]) : i \in 1..Len(L)}) # Pow(n, Len(w)) THEN "overlap"
  ELSE "ok"

(* the facets of the pieces L that lie in facet f of the cell are the pieces R of the facet's own cell, *)
(* or (loose) are as many over the same vertices                                                        *)
RestrictsTo(w, f, L, n, R, loose) ==
  LET own == {{L[j][i] : i \in {k \in 1..Len(L[j]) : OnFacet(w, f, L[j][k], n)}} : j \in 1..Len(L)}
      need == Len(R[1])
      A == {S \in own : Cardinality(S) = need}
      rows == Embedding(w, f - 1, 1)
      p0 == CellCorners(w, f - 1, 1)[1]
      Put(x) == TLCEval([a \in 1..Len(w) |-> n * p0[a] + SumSeq([j \in 1..Len(x) |-> x[j] * rows[j][a]])])
      B == {{Put(R[j][i]) : i \in 1..Len(R[j])} : j \in 1..Len(R)}
  IN IF loose THEN Cardinality(A) = Cardinality(B) /\ UNION A = UNION B ELSE A = B
(* the piece C has the point p / s *)
PieceOver(C, p, s, sim) ==
  /\ \A k \in 1..Len(p) : p[k] >= s * MinOf({C[i][k] : i \in 1..Len(C)}) /\ p[k] <= s * MaxOf({C[i][k] : i \in 1..Len(C)})
  /\ sim => \A k \in 1..Len(C) :
       LET j == IF k = 1 THEN 2 ELSE 1
           others == [i \in 1..(Len(C) - 1) |-> IF i < j THEN i ELSE i + 1]
           rows == TLCEval([i \in 1..Len(others) |-> [a \in 1..Len(p) |-> C[others[i]][a] - C[j][a]]])
           with == TLCEval([i \in 1..Len(others) |-> IF others[i] = k THEN [a \in 1..Len(p) |-> p[a] - s * C[j][a]] ELSE rows[i]])
       IN Sign(IDet(with)) \in {0, Sign(IDet(rows))}
(* the piece D of twice as many intervals lies in the piece C *)
PieceHas(C, D, sim) ==
  LET d == Len(C[1])
      Lo(k) == MinOf({C[i][k] : i \in 1..Len(C)})
      Hi(k) == MaxOf({C[i][k] : i \in 1..Len(C)})
  IN /\ \A i \in 1..Len(D) : \A k \in 1..d : D[i][k] >= 2 * Lo(k) /\ D[i][k] <= 2 * Hi(k)
     /\ sim => \A i \in 1..Len(D) : SimplexHas(C, D[i], 2)
=============================================================================

----------------------------- MODULE Construct -----------------------------
EXTENDS RefTopo
(* ---- the construction as a state machine, with its invariants ---- *)
VARIABLES word, cplx, pts, volden
vars == <<word, cplx, pts, volden>>
Init == word = <<>> /\ cplx = PointComplex /\ pts = PointCorners /\ volden = 1
Step(s) ==
  /\ Len(word) < MaxDim
  /\ word' = Append(word, s)
  /\ cplx' = Extend(cplx, s)
  /\ pts' = ExtendCorners(pts, s)
  /\ volden' = ExtendVol(volden, Len(word) + 1, s)
Prism == Step(1)
Pyramid == Step(0)
Next == Prism \/ Pyramid
Spec == Init /\ [][Next]_vars

(* the boundary complex is a sphere: alternating sum of cell counts is 1 *)
Euler == SumSeq([c1 \in 1..Len(cplx) |-> (IF (Len(cplx) - c1) % 2 = 0 THEN 1 ELSE -1) * Len(cplx[c1])]) = 1
(* a cell is determined by its vertices, so sub-entity numbers are well defined *)
Unique == \A c1 \in 1..Len(cplx) : \A j, k \in 1..Len(cplx[c1]) :
            VSet(cplx[c1][j]) = VSet(cplx[c1][k]) => j = k
(* every cell is a copy of its own reference element *)
OwnShape == \A c1 \in 1..Len(cplx) : \A k \in 1..Len(cplx[c1]) :
            /\ Len(cplx[c1][k].w) = Len(word) - (c1 - 1)
            /\ Len(cplx[c1][k].v) = NumV(Complex[cplx[c1][k].w])
            /\ Cardinality(VSet(cplx[c1][k])) = Len(cplx[c1][k].v)
(* all faces of all cplx are cplx of the complex, of the right shape *)
Closed ==
  \A c \in 0..Len(word) : \A i \in 0..(Size(word, c) - 1) :
    \A cc \in c..Len(word) : \A ii \in 0..(SubSize(word, i, c, cc) - 1) :
      LET own == CellOf(CellOf(word, i, c).w, ii, cc - c)
          img == {CellOf(word, i, c).v[own.v[k] + 1] : k \in 1..Len(own.v)}
      IN /\ img \in DOMAIN IndexOf[word][cc + 1]
         /\ SameShape(CellOf(word, SubEntity(word, i, c, ii, cc), cc).w, own.w)
(* vertices keep their order in sub-entities: corner k of a face is its k-th vertex *)
Vertices == \A c \in 0..Len(word) : \A i \in 0..(Size(word, c) - 1) :
              \A k \in 1..Len(CellOf(word, i, c).v) :
                SubEntity(word, i, c, k - 1, Len(word)) = CellOf(word, i, c).v[k]
(* every ridge is shared by exactly two facets *)
Ridges == Len(word) >= 2 =>
   \A r \in 0..(Size(word, 2) - 1) :
     Cardinality({<<f, k>> \in {<<f, k>> \in (0..(Size(word, 1) - 1)) \X (0..(2 * Len(word))) :
                                  k < SubSize(word, f, 1, 2)} :
                    SubEntity(word, f, 1, k, 2) = r}) = 2
(* the outer normals are orthogonal, close up, and give the volume (Gauss) *)
Gauss == Len(word) >= 1 =>
  LET d == Len(word)
      F == 1..Size(word, 1)
      L == Fact(d - 1)
      wgt(f) == L \div VolDen[CellOf(word, f - 1, 1).w]
  IN /\ \A f \in F : LET J == Embedding(word, f - 1, 1) IN
          /\ \A r \in 1..(d - 1) : IDot(J[r], Normals[word][f]) = 0
          /\ IDot(Normals[word][f], Normals[word][f])
               = IDet([a \in 1..(d - 1) |-> [b \in 1..(d - 1) |-> IDot(J[a], J[b])]])
     /\ \A k \in 1..d : SumSeq([f \in F |-> wgt(f) * Normals[word][f][k]]) = 0
     /\ SumSeq([f \in F |-> wgt(f) * IDot(Normals[word][f], FacetPoint[word][f])]) * volden
          = d * L
(* the cell is convex and its pts are exactly its extreme points *)
Convex == \A j \in 1..Len(pts) : Inside(word, pts[j], 1)
Extreme == Cardinality({k \in [1..Len(word) -> 0..1] : Inside(word, k, 1)}) = Len(pts)
Tables == cplx = Complex[word] /\ pts = Corners[word] /\ volden = VolDen[word]
=============================================================================

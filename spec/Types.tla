------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Geometry types as values.  A type is [dim, none, word]: either the      *)
(* shapeless type of a dimension or a construction word (see RefTopo); the *)
(* first letter of a word carries no meaning.  A recorded type <<dim, id,  *)
(* isNone>> denotes such a value.                                          *)
(***************************************************************************)
EXTENDS RefTopo

NoneType(d) == [dim |-> d, none |-> TRUE, word |-> <<>>]
ShapeType(w) == [dim |-> Len(w), none |-> FALSE,
                 word |-> [k \in 1..Len(w) |-> IF k = 1 THEN 0 ELSE w[k]]]
TypeOfId(d, id) == ShapeType(WordOf(d, id))
(* the type a recorded triple denotes *)
Denotes(t) == IF t[3] THEN NoneType(t[1]) ELSE TypeOfId(t[1], t[2])
WellFormed(t) == t[1] \in 0..31 /\ t[2] >= 0 /\ (t[3] \/ t[1] = 31 \/ t[2] < Pow(2, Min2(t[1], 30)))

Simplex(d) == ShapeType([k \in 1..d |-> 0])
Cube(d) == ShapeType([k \in 1..d |-> 1])
ConeOver(t) == IF t.none THEN NoneType(t.dim + 1) ELSE ShapeType(Append(t.word, 0))
PrismOverType(t) == IF t.none THEN NoneType(t.dim + 1) ELSE ShapeType(Append(t.word, 1))
VertexT == Simplex(0)
LineT == Simplex(1)
TriangleT == ConeOver(LineT)
QuadT == PrismOverType(LineT)
TetT == ConeOver(TriangleT)
PyramidT == ConeOver(QuadT)
PrismT == PrismOverType(TriangleT)
HexT == PrismOverType(QuadT)

(* what each way of making a type must yield *)
Made(how, a) ==
  CASE how = "default" -> NoneType(0)
    [] how = "vertex" -> VertexT
    [] how = "line" -> LineT
    [] how = "triangle" -> TriangleT
    [] how = "quadrilateral" -> QuadT
    [] how = "tetrahedron" -> TetT
    [] how = "pyramid" -> PyramidT
    [] how = "prism" -> PrismT
    [] how = "hexahedron" -> HexT
    [] how = "simplex" -> Simplex(a[1])
    [] how = "cube" -> Cube(a[1])
    [] how = "nonetype" -> NoneType(a[1])
    [] how \in {"noneconical", "noneprismatic"} -> NoneType(a[1] + 1)
    [] how \in {"id", "id3", "class", "static"} -> TypeOfId(a[1], a[2])
    [] how \in {"conical", "staticconical"} -> ConeOver(TypeOfId(a[1], a[2]))
    [] how \in {"prismatic", "staticprismatic"} -> PrismOverType(TypeOfId(a[1], a[2]))

IsSimplexT(t) == ~t.none /\ t = Simplex(t.dim)
IsCubeT(t) == ~t.none /\ t = Cube(t.dim)
ConicalAt(t, s) == ~t.none /\ (s = 0 \/ t.word[s + 1] = 0)
PrismaticAt(t, s) == ~t.none /\ (s = 0 \/ t.word[s + 1] = 1)
Text(t, id) ==
  IF t.none THEN "(none, " \o ToString(t.dim) \o ")"
  ELSE IF IsSimplexT(t) THEN "(simplex, " \o ToString(t.dim) \o ")"
  ELSE IF IsCubeT(t) THEN "(cube, " \o ToString(t.dim) \o ")"
  ELSE IF t = PyramidT THEN "(pyramid, 3)"
  ELSE IF t = PrismT THEN "(prism, 3)"
  ELSE "(other [" \o ToString(id) \o "], " \o ToString(t.dim) \o ")"

----------------------------------------------------------------------------
(* Indices: the types of one dimension in order of their word, none last   *)
NumShapes(d) == IF d = 0 THEN 1 ELSE Pow(2, d - 1)
LocalSize(d) == NumShapes(d) + 1
Offset(d) == SumSeq([k \in 1..d |-> LocalSize(k - 1)])
LocalIndex(t) == IF t.none THEN NumShapes(t.dim) ELSE IdOf(t.word) \div 2
GlobalIndex(t) == Offset(t.dim) + LocalIndex(t)
TypeAt(d, k) == IF k = NumShapes(d) THEN NoneType(d) ELSE TypeOfId(d, 2 * k)

(* standard shapes by dimension and number of vertices *)
StdShapes == {VertexT, LineT, TriangleT, QuadT, TetT, PyramidT, PrismT, HexT}
NumVerts(t) == Size(t.word, t.dim)
=============================================================================

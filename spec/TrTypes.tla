------------------------------ MODULE TrTypes ------------------------------
(* Conformance of geometry types, type indices and vertex counts. *)
EXTENDS Types, TraceBase

MakeOk(e) ==
  LET t == Made(e.how, e.args)
      n == ~t.none
      steps == 0..(t.dim - 1)
  IN IF ~WellFormed(e.t) THEN "not a type"
     ELSE IF Denotes(e.t) # t THEN "a different type was made"
     ELSE IF \E b \in 1..Len(e.back) : ~WellFormed(e.back[b]) \/ e.back[b] # e.t THEN "id round trip or copy"
     ELSE IF e.none # t.none \/ e.simplex # IsSimplexT(t) \/ e.cube # IsCubeT(t)
             \/ (n /\ e.vertex # (t = VertexT)) \/ (n /\ e.line # (t = LineT))
             \/ (t.dim > 0 /\ e.vertex) \/ (t.dim # 1 /\ e.line)
             \/ e.triangle # (t = TriangleT) \/ e.quadrilateral # (t = QuadT)
             \/ e.tetrahedron # (t = TetT) \/ e.pyramid # (t = PyramidT)
             \/ e.prism # (t = PrismT) \/ e.hexahedron # (t = HexT) THEN "shape predicates"
     ELSE IF e.conical # [k \in 1..t.dim |-> ConicalAt(t, k - 1)]
             \/ e.prismatic # [k \in 1..t.dim |-> PrismaticAt(t, k - 1)] THEN "construction step predicates"
     ELSE IF t.dim > 0 /\ (e.lastconical # ConicalAt(t, t.dim - 1) \/ e.lastprismatic # PrismaticAt(t, t.dim - 1))
          THEN "last step predicates"
     ELSE IF e.text # Text(t, e.t[2]) THEN "printed name"
     ELSE "ok"

(* equality is equality of the denoted values; less-than is the strict     *)
(* order of some ranking in which exactly equal types have equal rank      *)
PairsOk(e) ==
  LET n == Len(e.types)
      d == TLCEval([k \in 1..n |-> Denotes(e.types[k])])
      rank == TLCEval([k \in 1..n |-> Cardinality({j \in 1..n : e.lt[j][k]})])
  IN IF \E j, k \in 1..n : e.eq[j][k] # (d[j] = d[k]) THEN "equality of types"
     ELSE IF \E j, k \in 1..n : e.ne[j][k] # (d[j] # d[k]) THEN "inequality of types"
     ELSE IF \E j, k \in 1..n : e.lt[j][k] # (rank[j] < rank[k]) THEN "less-than is not a strict weak order"
     ELSE IF \E j, k \in 1..n : (rank[j] = rank[k]) # (d[j] = d[k]) THEN "less-than does not separate exactly the different types"
     ELSE "ok"

SizesOk(e) == e.local = LocalSize(e.dim) /\ e.offset = Offset(e.dim) /\ e.global = Offset(e.dim + 1)
IndexOk(e) == e.local = LocalIndex(Denotes(e.t)) /\ e.global = GlobalIndex(Denotes(e.t))
TypeofOk(e) == WellFormed(e.t) /\ Denotes(e.t) = TypeAt(e.dim, e.k)
DispatchOk(e) == WellFormed(e.got) /\ Denotes(e.got) = Denotes(e.t)
AllOk(e) ==
  /\ e.lsize = LocalSize(e.dim) /\ e.gsize = Offset(e.dim + 1)
  /\ Len(e.local) = e.lsize /\ {e.local[k] : k \in 1..Len(e.local)} = 0..(e.lsize - 1)
  /\ Len(e.global) = e.gsize /\ {e.global[k] : k \in 1..Len(e.global)} = 0..(e.gsize - 1)

(* deduction from vertex counts: see property C24 for dimensions 0 and 1 *)
CountOk(e) ==
  LET fits == {t \in StdShapes : t.dim = e.dim /\ NumVerts(t) = e.n}
  IN IF fits # {} THEN e.outcome = "type" /\ WellFormed(e.t) /\ Denotes(e.t) \in fits /\ e.v = e.n
     ELSE e.dim >= 2 => e.outcome = "refused"

TypesVerdict(e) ==
  CASE e.op = "make" -> MakeOk(e)
    [] e.op = "pairs" -> PairsOk(e)
    [] e.op = "sizes" -> IF SizesOk(e) THEN "ok" ELSE "sizes and offsets"
    [] e.op = "index" -> IF IndexOk(e) THEN "ok" ELSE "index of a type"
    [] e.op = "typeof" -> IF TypeofOk(e) THEN "ok" ELSE "type of an index"
    [] e.op = "dispatch" -> IF DispatchOk(e) THEN "ok" ELSE "dispatch to a static type"
    [] e.op = "all" -> IF AllOk(e) THEN "ok" ELSE "indices are not a bijection"
    [] e.op = "count" -> IF CountOk(e) THEN "ok" ELSE "type from vertex count"
    [] OTHER -> "unknown event"
=============================================================================

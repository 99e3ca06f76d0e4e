------------------------------ MODULE TrPyRef ------------------------------
(***************************************************************************)
(* Conformance of reference elements as seen from Python.  A call either   *)
(* asks for something the cell complex has - then the answer is that of    *)
(* the complex - or it must raise a ValueError.                            *)
(***************************************************************************)
EXTENDS PyNames, TraceBase

PyTol == 5
W(e) == WordOf(e.dim, e.id)

CodimOk(w, c) == c >= 0 /\ c <= Len(w)
CellOk(w, i, c) == CodimOk(w, c) /\ i >= 0 /\ i < Size(w, c)
SubOk(w, i, c, cc) == CellOk(w, i, c) /\ cc >= c /\ cc <= Len(w)
Valid(name, w, a) ==
  CASE name \in {"types", "positions"} -> CodimOk(w, a[1])
    [] name = "size" -> IF Len(a) = 1 THEN CodimOk(w, a[1]) ELSE SubOk(w, a[1], a[2], a[3])
    [] name = "integrationOuterNormal" -> CellOk(w, a[1], 1)
    [] name \in {"type", "position"} -> CellOk(w, a[1], a[2])
    [] name = "subEntities" -> SubOk(w, a[1], a[2], a[3])
    [] name = "subEntity" -> SubOk(w, a[1], a[2], a[4]) /\ a[3] >= 0 /\ a[3] < SubSize(w, a[1], a[2], a[4])

CellName(w, i, c, s) == s \in PyNames(ShapeType(CellOf(w, i, c).w))
RightAnswer(name, w, a, v) ==
  CASE name = "size" /\ Len(a) = 1 -> v = Size(w, a[1])
    [] name = "size" -> v = SubSize(w, a[1], a[2], a[3])
    [] name = "types" -> Len(v) = Size(w, a[1]) /\ \A k \in 1..Len(v) : CellName(w, k - 1, a[1], v[k])
    [] name = "type" -> CellName(w, a[1], a[2], v)
    [] name = "positions" -> Len(v) = Size(w, a[1]) /\ \A k \in 1..Len(v) : NearVec(Position(w, k - 1, a[1]), v[k], PyTol)
    [] name = "position" -> NearVec(Position(w, a[1], a[2]), v, PyTol)
    [] name = "integrationOuterNormal" -> NearVec([k \in 1..Len(w) |-> <<Normals[w][a[1] + 1][k], 1>>], v, PyTol)
    [] name = "subEntities" -> v = [k \in 1..SubSize(w, a[1], a[2], a[3]) |-> SubEntity(w, a[1], a[2], k - 1, a[3])]
    [] name = "subEntity" -> v = SubEntity(w, a[1], a[2], a[3], a[4])
CallOk(e, w, k) ==
  IF Valid(e.call, w, e.args[k]) THEN e.out[k] = "answer" /\ RightAnswer(e.call, w, e.args[k], e.val[k])
  ELSE e.out[k] = "ValueError"
CallsVerdict(e) ==
  LET w == W(e)
      bad == {k \in 1..Len(e.args) : ~CallOk(e, w, k)}
  IN IF bad = {} THEN "ok"
     ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j
          IN e.call \o " (" \o e.form \o ") of " \o ToString(e.args[k]) \o ": " \o e.out[k]

ElementVerdict(e) ==
  LET w == W(e)
      n == Len(w)
  IN IF e.dimension # n THEN "dimension"
     ELSE IF ~Near(<<1, VolDen[w]>>, e.vol, PyTol) THEN "volume"
     ELSE IF ~NearVec(Position(w, 0, 0), e.center, PyTol) THEN "center"
     ELSE IF Len(e.corners) # Size(w, n) \/ \E k \in 1..Len(e.corners) : ~NearVec(Position(w, k - 1, n), e.corners[k], PyTol) THEN "corners"
     ELSE IF n > 0 /\ (Len(e.normals) # Size(w, 1)
                       \/ \E k \in 1..Len(e.normals) : ~NearVec([j \in 1..n |-> <<Normals[w][k][j], 1>>], e.normals[k], PyTol)) THEN "integrationOuterNormals"
     ELSE "ok"

SameVerdict(e) ==
  LET t == TypeOfId(e.dim, e.id)
  IN IF {<<u[1], u[2]>> : u \in Range(e.same)} # {<<e.dim, i>> : i \in {i \in 0..(Pow(2, e.dim) - 1) : TypeOfId(e.dim, i) = t}}
       THEN "one element for each type"
     ELSE IF ~e.thing THEN "element of something that has a type"
     ELSE IF e.module[1] \notin PyNames(t) \/ e.module[2] \notin PyNames(t) THEN "type of the element"
     ELSE "ok"

PyRefVerdict(e) ==
  CASE e.op = "calls" -> CallsVerdict(e)
    [] e.op = "element" -> ElementVerdict(e)
    [] e.op = "same" -> SameVerdict(e)
    [] e.op = "shapeless" -> IF e.out = <<TRUE, TRUE>> THEN "ok" ELSE "an element for a shapeless type"
    [] OTHER -> "unknown event"
=============================================================================

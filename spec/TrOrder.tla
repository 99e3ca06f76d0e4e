------------------------------- MODULE TrOrder -----------------------------
(* Conformance of vertex orders. *)
EXTENDS RefTopo, Ranks, TraceBase
ReduceVerdict(e) == IF ~IsReduction(e.ids, e.out) THEN "not the reduced order" ELSE "ok"
(* sub = <<codimension, index, forward, by index, backward, jumping, distance, reduced, seen from the other places>> *)
SubVerdict(w, ids, s) ==
  LET v == CellOf(w, s[2], s[1]).v
      own == [k \in 1..Len(v) |-> ids[v[k] + 1]]
  IN IF Len(s[3]) # Len(v) THEN "number of vertices of a sub-entity"
     ELSE IF ~Alike(own, s[3]) THEN "order on a sub-entity"
     ELSE IF s[4] # s[3] \/ s[5] # s[3] \/ s[6] # s[3] THEN "the order depends on how it is walked through"
     ELSE IF s[7] # Len(v) THEN "distance of the iterators"
     ELSE IF \E k \in 0..Len(v) : s[9][k + 1][1] # s[3] THEN "order seen from another place"
     ELSE IF \E k, l \in 0..Len(v) : s[9][k + 1][2][l + 1] # l - k \/ s[9][k + 1][3][l + 1] # (IF k < l THEN 1 ELSE IF k = l THEN 2 ELSE 4) THEN "places of the iterators"
     ELSE IF ~IsReduction(own, s[8]) THEN "reduced order on a sub-entity"
     ELSE "ok"
OrderVerdict(e) ==
  LET w == WordOf(e.m, e.id)
      S == e.subs
      bad == {k \in 1..Len(S) : SubVerdict(w, e.ids, S[k]) # "ok"}
      els == {k \in 1..Len(S) : S[k][1] = 0}
  IN IF e.tdim # e.m \/ ~SameShape(WordOf(e.m, e.tid), w) \/ e.dimension # e.m THEN "type"
     ELSE IF {<<S[k][1], S[k][2]>> : k \in 1..Len(S)} # UNION {{<<c, i>> : i \in 0..(Size(w, c) - 1)} : c \in 0..e.m} THEN "sub-entities"
     ELSE IF bad # {} THEN SubVerdict(w, e.ids, S[CHOOSE k \in bad : TRUE])
     ELSE IF \E k \in els : ~IsReduction(e.ids, S[k][3]) THEN "order of the element"
     (* one numbering for the element and all its sub-entities *)
     ELSE IF \E k \in 1..Len(S) : \E l \in els : S[k][3] # [j \in 1..Len(S[k][3]) |-> S[l][3][CellOf(w, S[k][2], S[k][1]).v[j] + 1]] THEN "numbers of the element"
     ELSE "ok"
VOrderVerdict(e) ==
  CASE e.op = "reduce" -> ReduceVerdict(e)
    [] e.op = "order" -> OrderVerdict(e)
    [] OTHER -> "unknown event"
=============================================================================

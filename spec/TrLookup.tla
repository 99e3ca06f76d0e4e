------------------------------ MODULE TrLookup -----------------------------
(* Conformance of reference element lookups. *)
EXTENDS RefTopo, Handles, TraceBase

RaceOk(e) ==
  LET n == Len(e.seen)
      word(id) == WordOf(e.dim, id)
  IN IF \E k \in 1..n : e.seen[k].tdim # e.dim \/ e.seen[k].tid # e.seen[k].id \/ e.seen[k].tid2 # e.seen[k].id
       THEN "an element of another type"
     ELSE IF \E k \in 1..n : e.seen[k].sizes # [c \in 1..(e.dim + 1) |-> Size(word(e.seen[k].id), c - 1)]
                          \/ e.seen[k].vol # e.seen[k].vol2 \/ ~Near(<<1, VolDen[word(e.seen[k].id)]>>, e.seen[k].vol, 200)
       THEN "an incomplete element"
     ELSE IF \E j, k \in 1..n : (e.seen[j].id = e.seen[k].id) # (e.seen[j].obj = e.seen[k].obj)
       THEN "one type, two objects, or two types, one object"
     ELSE IF \E k \in 1..n : ~e.seen[k].same THEN "handles of one element differ"
     ELSE "ok"

RECURSIVE Follow(_, _, _, _)
Follow(reg, steps, obs, k) ==
  IF ~HObserved(reg, obs[k]) THEN FALSE
  ELSE IF k > Len(steps) THEN TRUE
  ELSE Follow(HStep(reg, steps[k]), steps, obs, k + 1)
HandlesOk(e) == /\ Len(e.obs) = Len(e.steps) + 1
                /\ Follow(HStart(e.n), e.steps, e.obs, 1)

LookupVerdict(e) ==
  CASE e.op = "race" -> RaceOk(e)
    [] e.op = "handles" -> IF HandlesOk(e) THEN "ok" ELSE "handle comparison"
    [] OTHER -> "unknown event"
=============================================================================

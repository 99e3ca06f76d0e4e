------------------------------- MODULE TrBig -------------------------------
(* Conformance of rules in a number type of many digits. *)
EXTENDS BigRules, TraceBase

RECURSIVE BigWalkOk(_, _, _, _, _, _)
BigWalkOk(e, dirs, sums, a, v, k) ==
  IF ~BigNear(DropGuard(v), sums[k]) THEN FALSE
  ELSE IF k > Len(dirs) THEN TRUE
  ELSE BigWalkOk(e, dirs, sums, Raise(a, dirs[k]), TLCEval(BigTimes(v, RuleStep(e.m, e.id, e.qt, a, dirs[k]))), k + 1)

BigRuleVerdict(e) ==
  IF ~Granted(e.m, e.p, e.max) THEN (IF e.out = "refused" THEN "ok" ELSE "a request that must be refused was granted")
  ELSE IF e.out = "refused" THEN "a request within the advertised orders was refused"
  ELSE IF e.size < 1 THEN "empty rule"
  ELSE IF e.order < e.p THEN "order lower than requested"
  ELSE IF \E k \in 1..Len(e.walks) : Len(e.walks[k][1]) # e.order \/ Len(e.walks[k][2]) # e.order + 1 THEN "the recorded walk is too short"
  ELSE LET start == TLCEval(BigTimes(BigShift(BigOne, Guard), RuleMeasure(e.m, e.id, e.qt)))
       IN IF \E k \in 1..Len(e.walks) :
               ~BigWalkOk(e, e.walks[k][1], e.walks[k][2], [j \in 1..e.m |-> 0], start, 1) THEN "integral of a monomial"
          ELSE "ok"

BigLineVerdict(e) ==
  LET n == Len(e.pts)
      X == [k \in 1..n |-> e.pts[k][1]]
      MirrorOf(k) == {j \in 1..Len(e.mirror) : BigNear(BigAdd(X[k], e.mirror[j][1]), BigOne) /\ BigNear(e.pts[k][2], e.mirror[j][2])}
  IN IF n # SmallestSize(e.qt, e.p) \/ e.order # OrderOfSize(e.qt, n) THEN "number of points"
     ELSE IF \E k \in 1..n : X[k] = <<-1>> \/ ~BigLeq(X[k], BigOne) THEN "node outside of the interval"
     ELSE IF \E k \in 1..n : e.pts[k][2] \in {<<-1>>, <<>>} THEN "weight not positive"
     ELSE IF Cardinality({k \in 1..n : X[k] = <<>>}) # (IF HasLeftEnd(e.qt) THEN 1 ELSE 0) THEN "left end"
     ELSE IF Cardinality({k \in 1..n : X[k] = BigOne}) # (IF HasRightEnd(e.qt) THEN 1 ELSE 0) THEN "right end"
     ELSE IF \E j, k \in 1..n : j < k /\ BigNear(X[j], X[k]) THEN "nodes coincide"
     ELSE IF IsMirrored(e.qt) /\ (Len(e.mirror) # n \/ \E k \in 1..n : Cardinality(MirrorOf(k)) # 1) THEN "mirror image"
     ELSE "ok"

BigVerdict(e) ==
  CASE e.op = "bigrule" -> BigRuleVerdict(e)
    [] e.op = "bigline" -> BigLineVerdict(e)
    [] OTHER -> "unknown event"
=============================================================================

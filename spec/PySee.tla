------------------------------- MODULE PySee -------------------------------
(* What the holder of a rule, an iterator, two points, their positions and  *)
(* a pair of arrays sees, as values: <<which rule, how many points so far>>.*)
(* Positions and arrays are the holder's own: they outlive the point, and   *)
(* writing into them (k = LfOwn) is seen by nobody else.                    *)
EXTENDS Integers, Sequences, TLC
LfNone == [k |-> 0, pos |-> 0]
LfOwn == -1
LfStart == [rule |-> 0, iter |-> LfNone, pt |-> <<LfNone, LfNone>>, ps |-> <<LfNone, LfNone>>, arr |-> 0]
(* what a step makes of what the user sees *)
LfCan(v, s) ==
  CASE s[1] = "rule" -> TRUE
    [] s[1] \in {"iter", "get", "droprule"} -> v.rule # 0
    [] s[1] = "next" -> v.iter.k # 0 /\ v.iter.pos < 3
    [] s[1] = "dropiter" -> v.iter.k # 0
    [] s[1] = "droppoint" -> v.pt[s[2]].k # 0
    [] s[1] = "write" -> v.arr > 0 \/ v.ps[1].k > 0 \/ v.ps[2].k > 0
LfStep(v, s) ==
  CASE s[1] = "rule" -> [v EXCEPT !.rule = s[2]]
    [] s[1] = "iter" -> [v EXCEPT !.iter = [k |-> v.rule, pos |-> 0]]
    [] s[1] = "get" -> [v EXCEPT !.arr = v.rule]
    [] s[1] = "next" -> [v EXCEPT !.pt[s[2]] = [k |-> v.iter.k, pos |-> v.iter.pos + 1],
                                   !.ps[s[2]] = [k |-> v.iter.k, pos |-> v.iter.pos + 1], !.iter.pos = @ + 1]
    [] s[1] = "droprule" -> [v EXCEPT !.rule = 0]
    [] s[1] = "dropiter" -> [v EXCEPT !.iter = LfNone]
    [] s[1] = "droppoint" -> [v EXCEPT !.pt[s[2]] = LfNone]
    [] s[1] = "write" -> [v EXCEPT !.arr = IF @ = 0 THEN 0 ELSE LfOwn,
                                   !.ps = [q \in {1, 2} |-> IF @[q].k = 0 THEN LfNone ELSE [k |-> LfOwn, pos |-> 0]]]
(* what is seen after a history *)
LfAfter(steps) ==
  LET F[n \in 0..Len(steps)] == IF n = 0 THEN LfStart ELSE LfStep(F[n - 1], steps[n])
  IN F[Len(steps)]
=============================================================================

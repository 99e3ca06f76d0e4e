------------------------------- MODULE IterOps -----------------------------
(***************************************************************************)
(* Iterators as values.  Steps: 0 a: a := begin; 1 a: a := end; 2 a b:     *)
(* a := b; 3 a b: a is made anew as a copy of b; 4 a: ++a; 5 a b: b := a++ *)
(***************************************************************************)
EXTENDS Integers, Sequences
(* registers that hold places 0..N of an iteration, N being its end *)
IterStep(R, N, op, a, b) ==
  CASE op = 0 -> [R EXCEPT ![a] = 0]
    [] op = 1 -> [R EXCEPT ![a] = N]
    [] op \in {2, 3} -> [R EXCEPT ![a] = R[b]]
    [] op = 4 -> [R EXCEPT ![a] = R[a] + 1]
    [] OTHER -> [[R EXCEPT ![a] = R[a] + 1] EXCEPT ![b] = R[a]]
IterOpsOf(k) == {<<0, a, a>> : a \in 1..k} \cup {<<1, a, a>> : a \in 1..k} \cup {<<4, a, a>> : a \in 1..k}
                \cup {<<o, a, b>> : o \in {2, 3, 5}, a \in 1..k, b \in 1..k}
IterMay(R, N, s) == s[1] \in {4, 5} => R[s[2]] < N
=============================================================================

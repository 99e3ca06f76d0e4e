-------------------------------- MODULE Ranks ------------------------------
(* Reducing a sequence of numbers to ranks. *)
EXTENDS Integers, Sequences, FiniteSets
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Alike(s, r) == /\ Len(s) = Len(r)                       \* compare in the same way
               /\ \A i, j \in 1..Len(s) : (s[i] < s[j]) <=> (r[i] < r[j])
(* what a reduction of s may be: it compares like s, starts at zero, stays
   below the length, and so is a permutation if no number is repeated *)
IsReduction(s, r) ==
  /\ Alike(s, r)
  /\ \A i \in 1..Len(r) : r[i] \in 0..(Len(r) - 1)
  /\ Len(r) > 0 => \E i \in 1..Len(r) : r[i] = 0
(* the one that counts smaller numbers *)
Reduce(s) == [i \in 1..Len(s) |-> Cardinality({j \in 1..Len(s) : s[j] < s[i]})]
Pick(s, at) == [k \in 1..Len(at) |-> s[at[k]]]
=============================================================================

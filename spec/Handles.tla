------------------------------ MODULE Handles ------------------------------
(* Reference element handles are values: a handle is empty (-1) or denotes  *)
(* the element of a topology id.                                           *)
EXTENDS Integers, Sequences, TLC
\* steps: <<0,h,id,path>> lookup, <<1,h,g>> copy, <<2,h>> clear, <<3,h,g>> move from a copy, <<4,h,g>> swap
HEmpty == -1
HStart(n) == [h \in 1..n |-> HEmpty]
HStep(reg, s) ==
  CASE s[1] = 0 -> [reg EXCEPT ![s[2] + 1] = s[3]]
    [] s[1] \in {1, 3} -> [reg EXCEPT ![s[2] + 1] = reg[s[3] + 1]]
    [] s[1] = 2 -> [reg EXCEPT ![s[2] + 1] = HEmpty]
    [] s[1] = 4 -> [reg EXCEPT ![s[2] + 1] = reg[s[3] + 1], ![s[3] + 1] = reg[s[2] + 1]]
\* what must be observed of the handles
HObserved(reg, o) ==
  LET n == Len(reg) IN
  /\ \A a, b \in 1..n : o.eq[a][b] = (reg[a] = reg[b]) /\ o.ne[a][b] = (reg[a] # reg[b])
  /\ \A a, b \in 1..n : reg[a] = reg[b] => o.hash[a][b]
  /\ \A a \in 1..n : o.ids[a] = reg[a]
=============================================================================

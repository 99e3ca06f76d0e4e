------------------------------ MODULE TopoStore ----------------------------
(***************************************************************************)
(* A factory that keeps what it made.  A request names a topology (by its  *)
(* identifier, of which the lowest bit does not matter), a key and the     *)
(* interface used; it never matters which interface.  Keys: 0 and 1 are    *)
(* plain; the first attempt to make an object for key 2 fails; making one  *)
(* for key 3 asks for the object of the same topology with key 0.          *)
(* An object is known by the number of its making.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Shape(id) == id \div 2
TsEmpty == [made |-> <<>>, failed |-> {}, out |-> <<>>]
(* made[n] = <<shape, key>> of the n-th object *)
TsFind(st, s, k) == LET I == {n \in 1..Len(st.made) : st.made[n] = <<s, k>>} IN IF I = {} THEN 0 ELSE CHOOSE n \in I : TRUE
TsFailing(st, s, k) == k = 2 /\ <<s, k>> \notin st.failed
TsMake(st, s, k) == [st EXCEPT !.made = Append(@, <<s, k>>)]
TsMade(st, s, k) ==                 \* after a request for <<s, k>> that succeeds
  IF TsFind(st, s, k) # 0 THEN st
  ELSE IF k = 3 THEN TsMake(IF TsFind(st, s, 0) # 0 THEN st ELSE TsMake(st, s, 0), s, 3)
  ELSE TsMake(st, s, k)
(* request r = <<interface, id, key>>; interface 3 gives an object back *)
TsStep(st, r) ==
  LET s == Shape(r[2])
      k == r[3]
  IN IF r[1] = 3 THEN [st EXCEPT !.out = Append(@, 0)]
     ELSE IF TsFailing(st, s, k) THEN [st EXCEPT !.failed = @ \cup {<<s, k>>}, !.out = Append(@, -1)]
     ELSE LET t == TsMade(st, s, k) IN [t EXCEPT !.out = Append(@, TsFind(t, s, k))]
TsRun(rs) == FoldLeft(TsStep, TsEmpty, rs)
=============================================================================

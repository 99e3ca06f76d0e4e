-------------------------------- MODULE TrKeep -----------------------------
(* Conformance of topology factories. *)
EXTENDS TopoStore, TraceBase
TkAsked(e) == TLCEval([i \in 1..(Len(e.steps) \div 3) |-> <<e.steps[3 * i - 2], e.steps[3 * i - 1], e.steps[3 * i]>>])
(* observed <<number, id, dimension, key>> is object n of the specification *)
IsObject(o, st, dim, n) ==
  /\ o[3] = dim /\ Shape(o[2]) = st.made[n][1] /\ o[4] = st.made[n][2]
KeepVerdict(e) ==
  LET R == TkAsked(e)
      st == TsRun(R)
      N == Len(st.made)
  IN IF Len(e.out) # Len(R) THEN "incomplete"
     ELSE IF \E i \in 1..Len(R) : (st.out[i] = -1) # (e.out[i][1] = -1) THEN "failure of a request"
     ELSE IF \E i \in 1..Len(R) : st.out[i] > 0 /\ ~(e.out[i][1] > 0 /\ IsObject(e.out[i], st, e.dim, st.out[i])) THEN "object of another topology or key"
     ELSE IF \E i, j \in 1..Len(R) : st.out[i] > 0 /\ st.out[j] > 0 /\ (st.out[i] = st.out[j]) # (e.out[i][1] = e.out[j][1]) THEN "not one object per topology and key"
     ELSE IF Len(e.made) # N THEN "number of objects made"
     ELSE IF \E i \in 1..Len(R) : st.out[i] > 0 /\ e.later[i] # e.out[i] THEN "an object did not stay"
     ELSE IF e.releasedBefore # 0 THEN "released before the end"
     ELSE IF Len(e.released) # N \/ {e.released[i] : i \in 1..Len(e.released)} # 1..N THEN "released never or more than once"
     ELSE "ok"
(* the plain factory makes a new object each time; key 3 makes and keeps one of key 0 elsewhere *)
PlainVerdict(e) ==
  LET R == SelectSeq(TkAsked(e), LAMBDA r : r[1] # 3)
      Fails(i) == R[i][3] = 2 /\ ~\E j \in 1..(i - 1) : R[j][3] = 2 /\ Shape(R[j][2]) = Shape(R[i][2])
      good == {i \in 1..Len(R) : ~Fails(i)}
      Num(i) == e.out[i][1]
  IN IF Len(e.out) # Len(R) THEN "incomplete"
     ELSE IF \E i \in 1..Len(R) : Fails(i) # (Num(i) = -1) THEN "failure of a request"
     ELSE IF \E i \in good : ~(Num(i) > 0 /\ e.out[i][3] = e.dim /\ Shape(e.out[i][2]) = Shape(R[i][2]) /\ e.out[i][4] = R[i][3]) THEN "object of another topology or key"
     ELSE IF \E i, j \in good : i # j /\ Num(i) = Num(j) THEN "an object was given out twice"
     ELSE IF e.releasedBefore # 0 THEN "released by nobody"
     ELSE IF e.releasedThen # e.numbers THEN "release"
     ELSE IF Len(e.released) # Len(e.made) \/ {e.released[i] : i \in 1..Len(e.released)} # 1..Len(e.made) THEN "released never or more than once"
     ELSE "ok"
KeepingVerdict(e) ==
  CASE e.op = "keep" -> KeepVerdict(e)
    [] e.op = "plain" -> PlainVerdict(e)
    [] e.op = "crash" -> "the process did not survive"
    [] OTHER -> "unknown event"
=============================================================================

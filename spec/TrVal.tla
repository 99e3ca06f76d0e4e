------------------------------- MODULE TrVal -------------------------------
(* Conformance of histories of objects: every answer is the one a fresh     *)
(* object of the value gives.                                              *)
EXTENDS ValStore, Num, TraceBase

VSame(a, b) == a = b \/ (Len(a) = Len(b) /\ \A k \in 1..Len(a) : \E d \in {-1, 0, 1} :
                  a[k][1] = b[k][1] + d /\ Abs(a[k][2] - b[k][2] + d * GIGA) <= 3)
ValEvent(e) ==
  LET n == Len(e.vecs)
      same == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> VSame(e.vecs[i], e.vecs[j])])])
      Right(v, q, a) == a \in 1..n /\ same[e.fresh[v][q]][a]
      (* one history: steps, the answer after each step (0 for none), and all answers in the end *)
      RECURSIVE Run(_, _, _)
      Run(h, reg, k) ==
        IF k > Len(h[1]) THEN
          (IF \A r \in {1, 2} : IF VLive(reg[r]) THEN Len(h[3][r]) = Len(e.fresh[1]) /\ \A q \in 1..Len(h[3][r]) : Right(reg[r], q, h[3][r][q])
                                ELSE h[3][r] = <<>>
           THEN "ok" ELSE "an object does not answer like its value in the end")
        ELSE LET s == h[1][k]
             IN IF ~VMay(reg, s) THEN "impossible step"
                ELSE IF s[1] = 7 /\ ~Right(reg[s[2]], s[3], h[2][k]) THEN "an object does not answer like its value"
                ELSE Run(h, VAfter(reg, s), k + 1)
      bad == {k \in 1..Len(e.hist) : Run(e.hist[k], <<1, 2>>, 1) # "ok"}
  IN IF Len(e.fresh) # 3 THEN "malformed"
     ELSE IF \E v, u \in 1..3 : v # u /\ \A q \in 1..Len(e.fresh[v]) : same[e.fresh[v][q]][e.fresh[u][q]] THEN "different values answer alike"
     ELSE IF bad = {} THEN "ok"
     ELSE Run(e.hist[MinOf(bad)], <<1, 2>>, 1) \o ": " \o ToString(e.hist[MinOf(bad)][1])
ValVerdict(e) == IF e.op = "values" THEN ValEvent(e) ELSE "unknown event"
=============================================================================

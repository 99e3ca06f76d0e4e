----------------------------- MODULE TrRuleCache ---------------------------
(* Conformance of recorded uses of the rule cache with RuleStore: there is *)
(* one object per key, which never changes, and requests end as they must. *)
EXTENDS Rules, TraceBase
(* key = <<dim, id, family, order>>; content = <<dim, id, order, size, points with weights>> *)
KeyWord(k) == WordOf(k[1], k[2])
KeyTop(k) == HighestOrder(k[1], KeyWord(k), k[3])
KeyGranted(k) == Granted(k[1], k[4], KeyTop(k))
(* rules of a high order are computed, which needs a floating point type *)
KeyPossible(k, exotic) == KeyGranted(k) /\ ~(exotic /\ k[3] = JacobiN /\ k[4] >= 61)
ContentFits(k, c) ==
  LET n == Len(c[5])
      m == RuleMeasure(k[1], k[2], k[3])
  IN /\ c[1] = k[1] /\ SameShape(WordOf(k[1], c[2]), KeyWord(k))
     /\ c[3] >= k[4] /\ c[4] = n /\ n >= 1
     /\ k[1] = 1 => n = SmallestSize(k[3], k[4])
     /\ \A j \in 1..n : Len(c[5][j]) = k[1] + 1
     /\ LinNear([j \in 1..n |-> m[2]], [j \in 1..n |-> c[5][j][k[1] + 1]], m[1], 2000 * n)
(* the store as far as it is known: key index -> <<object, content>> *)
Unknown == <<0, 0>>
Fits(e, store, k, o, c) ==
  /\ o > 0 /\ c > 0
  /\ store[k] \in {Unknown, <<o, c>>}
  /\ \A j \in DOMAIN store : j # k /\ e.keys[j] # e.keys[k] => store[j][1] # o
  /\ store[k] = Unknown => ContentFits(e.keys[k], e.contents[c])
RECURSIVE Follow(_, _, _, _, _)
(* cur: thread -> key asked for; hit: threads whose attempt was made to fail *)
Follow(e, n, store, cur, hit) ==
  IF n > Len(e.acts) THEN [why |-> "ok", store |-> store]
  ELSE LET a == e.acts[n]
           t == a[2] + 1
           k == cur[t]
           Stop(w) == [why |-> w, store |-> store]
       IN CASE a[1] = "begin" -> Follow(e, n + 1, store, TLCEval([cur EXCEPT ![t] = a[3] + 1]), hit \ {t})
            [] a[1] = "fail" -> Follow(e, n + 1, store, cur, hit \cup {t})
            [] a[1] = "injected" -> IF t \in hit THEN Follow(e, n + 1, store, cur, hit \ {t}) ELSE Stop("an exception of somebody else's attempt")
            [] a[1] = "refused" -> IF ~KeyPossible(e.keys[k], TRUE) THEN Follow(e, n + 1, store, cur, hit) ELSE Stop("a possible request was refused")
            [] a[1] = "rule" -> IF ~KeyPossible(e.keys[k], TRUE) THEN Stop("an impossible request was granted")
                                ELSE IF t \in hit THEN Stop("a failed attempt was answered with a rule")
                                ELSE IF Fits(e, store, k, a[3], a[4]) THEN Follow(e, n + 1, TLCEval([store EXCEPT ![k] = <<a[3], a[4]>>]), cur, hit)
                                ELSE Stop("not the rule of this request")
            [] OTHER -> Stop("unknown act")
RECURSIVE AllFit(_, _, _, _)
AllFit(e, L, n, store) ==
  IF n > Len(L) THEN TRUE
  ELSE LET k == L[n][1] + 1
       IN /\ Fits(e, store, k, L[n][2], L[n][3])
          /\ AllFit(e, L, n + 1, TLCEval([store EXCEPT ![k] = <<L[n][2], L[n][3]>>]))
Blank(e) == TLCEval([k \in 1..Len(e.keys) |-> Unknown])
ScheduleVerdict(e) ==
  IF e.hang THEN "requests never end"
  ELSE LET f == Follow(e, 1, Blank(e), <<0, 0, 0>>, {})
       IN IF f.why # "ok" THEN f.why
          ELSE IF ~AllFit(e, e.final, 1, f.store) THEN "a rule changed or a later request is answered differently"
          ELSE "ok"
TogetherVerdict(e) ==
  LET Good == SelectSeq(e.got, LAMBDA g : KeyGranted(e.keys[g[1] + 1]))
  IN IF \E n \in 1..Len(e.got) : ~KeyGranted(e.keys[e.got[n][1] + 1]) /\ e.got[n][2] # 0 THEN "an impossible request was granted"
     ELSE IF \E n \in 1..Len(Good) : Good[n][2] = 0 THEN "a possible request was refused"
     ELSE IF ~AllFit(e, Good, 1, Blank(e)) THEN "not one unchanging rule per request"
     ELSE "ok"
RuleCacheVerdict(e) ==
  CASE e.op = "schedule" -> ScheduleVerdict(e)
    [] e.op = "together" -> TogetherVerdict(e)
    [] e.op = "crash" -> "the program was ended by a signal or an uncaught exception"
    [] OTHER -> "unknown event"
=============================================================================

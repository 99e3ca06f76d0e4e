------------------------------- MODULE GenIso ------------------------------
(* Schedules of Isolate for replay.  Threads are numbered by first          *)
(* appearance; a schedule ends when nobody is in the middle of an answer.   *)
EXTENDS Isolate, Json
CONSTANTS ILen, IEvery, ITakes
VARIABLES gnSteps
GNInit == IInit /\ gnSteps = <<>>
GNNew(t) == \A u \in 1..(t - 1) : \E k \in DOMAIN gnSteps : gnSteps[k][2] = u \/ (gnSteps[k][1] = 2 /\ gnSteps[k][3] = u)
GNNext ==
  /\ Len(gnSteps) < ILen
  /\ \E t \in 1..IThreads : GNNew(t) /\
       \/ \E f \in IFuns, n \in IStops : IBegin(t, f) /\ gnSteps' = Append(gnSteps, <<0, t, f, n>>)
       \/ IGo(t) /\ gnSteps' = Append(gnSteps, <<1, t, 0, 0>>)
       \/ ITakes /\ \E u \in 1..IThreads : ITake(t, u) /\ gnSteps' = Append(gnSteps, <<2, t, u, 0>>)
GNSpec == GNInit /\ [][GNNext]_<<isOwn, isIn, isTmp, isAns, gnSteps>>
RECURSIVE GNCode(_, _)
GNCode(s, n) == IF n = 0 THEN 0 ELSE (GNCode(s, n - 1) * 31 + s[n][1] * 11 + s[n][2] * 5 + s[n][3] * 3 + s[n][4] + 7) % 99991
(* two threads are in the middle of something at the same time *)
RECURSIVE GNInside(_, _)
GNInside(s, n) == IF n = 0 THEN {} ELSE CASE s[n][1] = 0 -> GNInside(s, n - 1) \cup {s[n][2]}
                                          [] s[n][1] = 1 -> GNInside(s, n - 1) \ {s[n][2]}
                                          [] OTHER -> GNInside(s, n - 1)
GNShow == (/\ Len(gnSteps) = ILen
           /\ \A t \in 1..IThreads : IIdle(t)
           /\ \E n \in 1..ILen : Cardinality(GNInside(gnSteps, n)) > 1
           /\ GNCode(gnSteps, ILen) % IEvery = 0) => PrintT("H " \o ToJson(gnSteps))
=============================================================================

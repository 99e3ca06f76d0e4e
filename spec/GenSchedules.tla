---------------------------- MODULE GenSchedules ---------------------------
(***************************************************************************)
(* Schedules for threads that use the rule cache: a thread starts a        *)
(* request, a thread that stands in the middle of making a rule goes on,   *)
(* or its attempt fails.  Threads are numbered by first appearance.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS SThreads, SKeys, SLen, SEvery
VARIABLES gsSteps, gsBusy
GSInit == gsSteps = <<>> /\ gsBusy = [t \in 1..SThreads |-> -1]      \* -1 never asked, 0 idle, else the key
GSStart(t, k) == /\ gsBusy[t] <= 0 /\ \A u \in 1..(t - 1) : gsBusy[u] >= 0
                 /\ gsSteps' = Append(gsSteps, <<0, t - 1, k>>)
                 /\ gsBusy' = [gsBusy EXCEPT ![t] = k]
GSLetGo(t, how) == /\ gsBusy[t] > 0
                   /\ gsSteps' = Append(gsSteps, <<how, t - 1, 0>>)
                   /\ gsBusy' = [gsBusy EXCEPT ![t] = 0]
GSNext == /\ Len(gsSteps) < SLen
          /\ \E t \in 1..SThreads : (\E k \in SKeys : GSStart(t, k)) \/ GSLetGo(t, 1) \/ GSLetGo(t, 2)
GSSpec == GSInit /\ [][GSNext]_<<gsSteps, gsBusy>>
RECURSIVE Code(_, _)
Code(s, n) == IF n = 0 THEN 0 ELSE (Code(s, n - 1) * 31 + s[n][1] * 11 + s[n][2] * 5 + s[n][3] + 7) % 99991
(* an attempt is open somewhere, a second thread is there: something can collide *)
GSShow == (Len(gsSteps) = SLen /\ gsBusy[2] >= 0 /\ Code(gsSteps, SLen) % SEvery = 0) => PrintT("H " \o ToJson(gsSteps))
=============================================================================

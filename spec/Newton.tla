------------------------------- MODULE Newton ------------------------------
(***************************************************************************)
(* The contract of inverting a map, and a model of the damped iteration    *)
(* that is meant to fulfil it.  Residuals are abstract levels; level 0..   *)
(* NTol-1 is below the tolerance.  Every evaluation of the map may give    *)
(* any level, every derivative may be singular: whatever the map does, the *)
(* iteration ends, and it answers "ok" only with a point below tolerance.  *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS NLevels, NTol, NMaxIt, NMaxInner
VARIABLES nwLimit, nwPc, nwRes0, nwRes, nwIt, nwInner, nwErr
nwVars == <<nwLimit, nwPc, nwRes0, nwRes, nwIt, nwInner, nwErr>>
Levels == 0..(NLevels - 1)
NInit == /\ nwLimit \in 0..NMaxIt /\ nwPc = "step" /\ nwRes0 \in Levels /\ nwRes = NLevels /\ nwIt = 0 /\ nwInner = 0 /\ nwErr = "none"
Finish(err) == nwPc' = "done" /\ nwErr' = err
(* derivative: singular, or a direction to search along *)
NDirection ==
  /\ nwPc = "step" /\ nwIt < nwLimit
  /\ \/ Finish("singular") /\ UNCHANGED <<nwLimit, nwRes0, nwRes, nwIt, nwInner>>
     \/ nwPc' = "search" /\ nwInner' = 0 /\ UNCHANGED <<nwLimit, nwRes0, nwRes, nwIt, nwErr>>
NSearch ==
  /\ nwPc = "search" /\ nwInner < NMaxInner
  /\ \E r \in Levels :
       /\ nwRes' = r
       /\ IF r < nwRes0 THEN nwPc' = "accept" /\ nwInner' = nwInner
          ELSE nwPc' = "search" /\ nwInner' = nwInner + 1
  /\ UNCHANGED <<nwLimit, nwRes0, nwIt, nwErr>>
NStagnate ==
  /\ nwPc = "search" /\ nwInner = NMaxInner
  /\ Finish(IF nwRes0 < NTol THEN "ok" ELSE "stagnation")
  /\ UNCHANGED <<nwLimit, nwRes0, nwRes, nwIt, nwInner>>
NAccept ==
  /\ nwPc = "accept"
  /\ nwRes0' = nwRes /\ nwIt' = nwIt + 1
  /\ IF nwRes < NTol THEN Finish("ok") ELSE nwPc' = "step" /\ nwErr' = nwErr
  /\ UNCHANGED <<nwLimit, nwRes, nwInner>>
NGiveUp ==
  /\ nwPc = "step" /\ nwIt = nwLimit
  /\ Finish(IF nwRes0 < NTol THEN "ok" ELSE "tolerance")
  /\ UNCHANGED <<nwLimit, nwRes0, nwRes, nwIt, nwInner>>
NNext == NDirection \/ NSearch \/ NStagnate \/ NAccept \/ NGiveUp
NSpec == NInit /\ [][NNext]_nwVars /\ WF_nwVars(NNext)
(* the point returned is the one with residual nwRes0 *)
NoWrongAnswer == (nwPc = "done" /\ nwErr = "ok") => nwRes0 < NTol
Descends == [][nwRes0' <= nwRes0]_nwVars
Ends == <>(nwPc = "done")
=============================================================================

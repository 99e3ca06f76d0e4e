------------------------------ MODULE Isolate ------------------------------
(***************************************************************************)
(* Threads that work on objects of their own.  An evaluation is not atomic:*)
(* it puts intermediate values into a place, may be interrupted there, and *)
(* forms its answer from what the place holds when it goes on.  Threads    *)
(* may take copies of each other's objects while both are idle.  As long   *)
(* as every thread has a place of its own, an answer is the one the thread *)
(* would have got alone, whatever the schedule.                            *)
(*   steps: <<0, t, f, n>> thread t begins to evaluate f and is stopped    *)
(*                 when n intermediate results were delivered              *)
(*          <<1, t, 0, 0>> thread t goes on to the end                     *)
(*          <<2, t, u, 0>> thread t takes a copy of the object of u        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS IThreads, IFuns, IStops,
          IPlace(_)                  \* the place of a thread
VARIABLES isOwn, isIn, isTmp, isAns
IInit == /\ isOwn = [t \in 1..IThreads |-> t]
         /\ isIn = [t \in 1..IThreads |-> <<>>]
         /\ isTmp = [t \in 1..IThreads |-> <<>>]
         /\ isAns = [t \in 1..IThreads |-> <<>>]
IIdle(t) == isIn[t] = <<>>
IBegin(t, f) ==
  /\ IIdle(t)
  /\ isIn' = [isIn EXCEPT ![t] = <<isOwn[t], f>>]
  /\ isTmp' = [isTmp EXCEPT ![IPlace(t)] = <<isOwn[t], f>>]
  /\ isAns' = [isAns EXCEPT ![t] = <<>>]
  /\ UNCHANGED isOwn
IGo(t) ==
  /\ ~IIdle(t)
  /\ isAns' = [isAns EXCEPT ![t] = <<isIn[t], isTmp[IPlace(t)]>>]
  /\ isIn' = [isIn EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<isOwn, isTmp>>
ITake(t, u) ==
  /\ t # u /\ IIdle(t) /\ IIdle(u)
  /\ isOwn' = [isOwn EXCEPT ![t] = isOwn[u]]
  /\ isAns' = [isAns EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<isIn, isTmp>>
INext == \E t \in 1..IThreads : (\E f \in IFuns : IBegin(t, f)) \/ IGo(t) \/ (\E u \in 1..IThreads : ITake(t, u))
ISpec == IInit /\ [][INext]_<<isOwn, isIn, isTmp, isAns>>
(* an answer is the one for the thread's own object and question *)
IAlone == \A t \in 1..IThreads : isAns[t] # <<>> => isAns[t][1] = isAns[t][2]
OwnPlace(t) == t
OnePlace(t) == 1
=============================================================================

----------------------------- MODULE RuleCache -----------------------------
(***************************************************************************)
(* The cache of quadrature rules as a protocol: three nested levels, each  *)
(* entry guarded by a flag that lets one thread build while others wait,   *)
(* and that is open again if building failed.  Building a product rule     *)
(* asks the same cache for its factors.  Every behaviour must be one of    *)
(* RuleStore, every request must end, and only those get an exception      *)
(* whose own attempt failed.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads,
          Asks,        \* requests per thread
          Faults       \* attempts that fail by accident
(* keys: a line rule, another one in the same table, one of another family,
   a product that needs the first line rule, a relabelled line rule that
   needs it, an order beyond the tables, one that can never be built *)
Keys == 1..7
Level1(k) == <<1, CASE k \in {4} -> "square" [] OTHER -> "line", CASE k = 3 -> "lobatto" [] k \in {5, 7} -> "jacobi" [] OTHER -> "gauss">>
Level2(k) == <<2, Level1(k)[2], Level1(k)[3]>>
Level3(k) == <<3, k, "rule">>
FlagOf(k, l) == CASE l = 1 -> Level1(k) [] l = 2 -> Level2(k) [] OTHER -> Level3(k)
Flags == {FlagOf(k, l) : k \in Keys, l \in 1..3}
Needs(k) == CASE k = 4 -> <<1, 1>> [] k = 5 -> <<1>> [] OTHER -> <<>>
Refused == {6}
Hopeless == {7}

VARIABLES rcFlag, rcStack, rcObj, rcMade, rcSay, rcLeft, rcFaults, rcOwn
rcVars == <<rcFlag, rcStack, rcObj, rcMade, rcSay, rcLeft, rcFaults, rcOwn>>
Frame(k) == [key |-> k, lvl |-> 1, st |-> "enter", i |-> 0]
RCInit ==
  /\ rcFlag = [f \in Flags |-> "new"]
  /\ rcStack = [t \in Threads |-> <<>>]
  /\ rcObj = [k \in Keys |-> 0]
  /\ rcMade = 0
  /\ rcSay = [t \in Threads |-> <<"idle", 0, 0>>]
  /\ rcLeft = [t \in Threads |-> Asks]
  /\ rcFaults = Faults
  /\ rcOwn = [t \in Threads |-> FALSE]
Top(t) == rcStack[t][Len(rcStack[t])]
WithTop(s, f) == [s EXCEPT ![Len(s)] = f]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

Start(t, k) ==
  /\ rcStack[t] = <<>> /\ rcLeft[t] > 0
  /\ rcStack' = [rcStack EXCEPT ![t] = <<Frame(k)>>]
  /\ rcLeft' = [rcLeft EXCEPT ![t] = @ - 1]
  /\ rcSay' = [rcSay EXCEPT ![t] = <<"asks", k, 0>>]
  /\ rcOwn' = [rcOwn EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<rcFlag, rcObj, rcMade, rcFaults>>
(* leave the innermost request with a rule *)
Leave(t, obj) ==
  IF Len(rcStack[t]) = 1
  THEN /\ rcStack' = [rcStack EXCEPT ![t] = <<>>]
       /\ rcSay' = [rcSay EXCEPT ![t] = <<"has", Top(t).key, obj>>]
  ELSE LET s == Pop(rcStack[t])
       IN /\ rcStack' = [rcStack EXCEPT ![t] = WithTop(s, [s[Len(s)] EXCEPT !.i = @ + 1])]
          /\ UNCHANGED rcSay
(* leave it with an exception: the one that asked is left in turn *)
Unwind(t) ==
  IF Len(rcStack[t]) = 1
  THEN /\ rcStack' = [rcStack EXCEPT ![t] = <<>>]
       /\ rcSay' = [rcSay EXCEPT ![t] = <<"threw", Top(t).key, 0>>]
  ELSE LET s == Pop(rcStack[t])
       IN /\ rcStack' = [rcStack EXCEPT ![t] = WithTop(s, [s[Len(s)] EXCEPT !.st = "unwind"])]
          /\ UNCHANGED rcSay
Advance(t) == rcStack' = [rcStack EXCEPT ![t] = WithTop(@, [Top(t) EXCEPT !.lvl = @ + 1, !.st = "enter"])]

Pass(t) ==           \* the entry is there already
  /\ rcStack[t] # <<>> /\ Top(t).st = "enter" /\ rcFlag[FlagOf(Top(t).key, Top(t).lvl)] = "done"
  /\ IF Top(t).lvl = 2 /\ Top(t).key \in Refused
     THEN Unwind(t) /\ rcOwn' = [rcOwn EXCEPT ![t] = TRUE]
     ELSE IF Top(t).lvl < 3 THEN Advance(t) /\ UNCHANGED <<rcSay, rcOwn>>
     ELSE Leave(t, rcObj[Top(t).key]) /\ UNCHANGED rcOwn
  /\ UNCHANGED <<rcFlag, rcObj, rcMade, rcLeft, rcFaults>>
Claim(t) ==          \* nobody has built it: do so
  /\ rcStack[t] # <<>> /\ Top(t).st = "enter" /\ rcFlag[FlagOf(Top(t).key, Top(t).lvl)] = "new"
  /\ rcFlag' = [rcFlag EXCEPT ![FlagOf(Top(t).key, Top(t).lvl)] = "busy"]
  /\ rcStack' = [rcStack EXCEPT ![t] = WithTop(@, [Top(t) EXCEPT !.st = "run"])]
  /\ UNCHANGED <<rcObj, rcMade, rcSay, rcLeft, rcFaults, rcOwn>>
Table(t) ==          \* the table of the next level
  /\ rcStack[t] # <<>> /\ Top(t).st = "run" /\ Top(t).lvl < 3
  /\ rcFlag' = [rcFlag EXCEPT ![FlagOf(Top(t).key, Top(t).lvl)] = "done"]
  /\ rcStack' = [rcStack EXCEPT ![t] = WithTop(@, [Top(t) EXCEPT !.st = "enter"])]
  /\ UNCHANGED <<rcObj, rcMade, rcSay, rcLeft, rcFaults, rcOwn>>
Nest(t) ==           \* ask for a factor
  /\ rcStack[t] # <<>> /\ Top(t).st = "run" /\ Top(t).lvl = 3 /\ Top(t).i < Len(Needs(Top(t).key))
  /\ rcStack' = [rcStack EXCEPT ![t] = Append(@, Frame(Needs(Top(t).key)[Top(t).i + 1]))]
  /\ UNCHANGED <<rcFlag, rcObj, rcMade, rcSay, rcLeft, rcFaults, rcOwn>>
Ready(t) == /\ rcStack[t] # <<>> /\ Top(t).st = "run" /\ Top(t).lvl = 3 /\ Top(t).i = Len(Needs(Top(t).key))
Build(t) ==
  /\ Ready(t) /\ Top(t).key \notin Hopeless
  /\ rcMade' = rcMade + 1
  /\ rcObj' = [rcObj EXCEPT ![Top(t).key] = rcMade + 1]
  /\ rcFlag' = [rcFlag EXCEPT ![Level3(Top(t).key)] = "done"]
  /\ rcStack' = [rcStack EXCEPT ![t] = WithTop(@, [Top(t) EXCEPT !.st = "enter"])]
  /\ UNCHANGED <<rcSay, rcLeft, rcFaults, rcOwn>>
Fail(t) ==
  /\ Ready(t) /\ (Top(t).key \in Hopeless \/ rcFaults > 0)
  /\ rcFaults' = IF Top(t).key \in Hopeless THEN rcFaults ELSE rcFaults - 1
  /\ rcStack' = [rcStack EXCEPT ![t] = WithTop(@, [Top(t) EXCEPT !.st = "unwind"])]
  /\ rcOwn' = [rcOwn EXCEPT ![t] = TRUE]
  /\ UNCHANGED <<rcFlag, rcObj, rcMade, rcSay, rcLeft>>
Release(t) ==        \* an exception leaves the entry: it is open again
  /\ rcStack[t] # <<>> /\ Top(t).st = "unwind"
  /\ rcFlag' = [rcFlag EXCEPT ![Level3(Top(t).key)] = "new"]
  /\ Unwind(t)
  /\ UNCHANGED <<rcObj, rcMade, rcLeft, rcFaults, rcOwn>>
Done == /\ \A t \in Threads : rcStack[t] = <<>> /\ rcLeft[t] = 0
        /\ UNCHANGED rcVars
Step(t) == Pass(t) \/ Claim(t) \/ Table(t) \/ Nest(t) \/ Build(t) \/ Fail(t) \/ Release(t)
RCNext == (\E t \in Threads : Step(t) \/ \E k \in Keys : Start(t, k)) \/ Done
RCSpec == RCInit /\ [][RCNext]_rcVars /\ \A t \in Threads : WF_rcVars(Step(t))

Store == INSTANCE RuleStore WITH stObj <- rcObj, stSay <- rcSay, MayFail <- LAMBDA k : TRUE
RCRefines == Store!StSpec
RCOnlyOwn == \A t \in Threads : rcSay[t][1] = "threw" => rcOwn[t]
RCNoPoison == \A f \in Flags : rcFlag[f] = "busy" =>
                Cardinality({t \in Threads : \E n \in 1..Len(rcStack[t]) :
                              rcStack[t][n].st \in {"run", "unwind"} /\ FlagOf(rcStack[t][n].key, rcStack[t][n].lvl) = f}) = 1
RCBuilt == \A k \in Keys : (rcFlag[Level3(k)] = "done") <=> (rcObj[k] # 0)
RCEnds == \A t \in Threads : (rcSay[t][1] = "asks") ~> (rcSay[t][1] # "asks")
=============================================================================

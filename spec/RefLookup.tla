----------------------------- MODULE RefLookup -----------------------------
(***************************************************************************)
(* Lookup of reference elements.  All elements of one dimension live in a  *)
(* container that is built by whoever asks first, while others wait.       *)
(* Each thread asks for its keys one after the other.  What a caller gets  *)
(* is the element of its key, complete, the same for everybody.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Keys, Asks
VARIABLES rlGuard,     \* "new", "building", "done"
          rlBuilder,   \* the thread that builds
          rlTable,     \* key -> object, 0 while not there
          rlFresh,     \* number of objects made so far
          rlTodo,      \* thread -> remaining keys
          rlAns        \* thread -> sequence of <<key, object>>
rlVars == <<rlGuard, rlBuilder, rlTable, rlFresh, rlTodo, rlAns>>
NoThread == "nobody"

RLInit ==
  /\ rlGuard = "new" /\ rlBuilder = NoThread
  /\ rlTable = [k \in Keys |-> 0] /\ rlFresh = 0
  /\ rlTodo \in [Threads -> {s \in UNION {[1..n -> Keys] : n \in 1..Asks} : TRUE}]
  /\ rlAns = [t \in Threads |-> <<>>]
Enter(t) == /\ rlTodo[t] # <<>> /\ rlGuard = "new"
            /\ rlGuard' = "building" /\ rlBuilder' = t
            /\ UNCHANGED <<rlTable, rlFresh, rlTodo, rlAns>>
Build(t, k) == /\ rlGuard = "building" /\ rlBuilder = t /\ rlTable[k] = 0
               /\ \A j \in Keys : j < k => rlTable[j] # 0
               /\ rlFresh' = rlFresh + 1
               /\ rlTable' = [rlTable EXCEPT ![k] = rlFresh + 1]
               /\ UNCHANGED <<rlGuard, rlBuilder, rlTodo, rlAns>>
Finish(t) == /\ rlGuard = "building" /\ rlBuilder = t /\ \A k \in Keys : rlTable[k] # 0
             /\ rlGuard' = "done" /\ rlBuilder' = NoThread
             /\ UNCHANGED <<rlTable, rlFresh, rlTodo, rlAns>>
Answer(t) == /\ rlGuard = "done" /\ rlTodo[t] # <<>>
             /\ rlAns' = [rlAns EXCEPT ![t] = Append(@, <<Head(rlTodo[t]), rlTable[Head(rlTodo[t])]>>)]
             /\ rlTodo' = [rlTodo EXCEPT ![t] = Tail(@)]
             /\ UNCHANGED <<rlGuard, rlBuilder, rlTable, rlFresh>>
RLNext == \E t \in Threads : Enter(t) \/ Finish(t) \/ Answer(t) \/ \E k \in Keys : Build(t, k)
RLSpec == RLInit /\ [][RLNext]_rlVars /\ WF_rlVars(RLNext)

RLAll == UNION {{rlAns[t][i] : i \in 1..Len(rlAns[t])} : t \in Threads}
RLComplete == \A a \in RLAll : a[2] # 0
RLSame == \A a, b \in RLAll : (a[1] = b[1]) <=> (a[2] = b[2])
RLOnce == rlFresh <= Cardinality(Keys)
RLAnswered == <>(\A t \in Threads : rlTodo[t] = <<>>)
RLStable == [][\A k \in Keys : rlTable[k] # 0 => rlTable'[k] = rlTable[k]]_rlVars
=============================================================================

----------------------------- MODULE RuleStore -----------------------------
(***************************************************************************)
(* What a user of the rule cache sees.  Rules come into being one by one   *)
(* and stay; a caller gets the rule of the key asked for, or an exception  *)
(* if making it failed on the caller's own account.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Keys, MayFail(_)
VARIABLES stObj,       \* key -> object, 0 while there is none
          stSay        \* thread -> <<"idle">>, <<"asks", key>>, <<"has", key, object>>, <<"threw", key>>
stVars == <<stObj, stSay>>
StInit == /\ stObj = [k \in Keys |-> 0]
          /\ stSay = [t \in Threads |-> <<"idle", 0, 0>>]
StMake(k) == /\ stObj[k] = 0
             /\ \E n \in 1..Cardinality(Keys) : (\A j \in Keys : stObj[j] # n) /\ stObj' = [stObj EXCEPT ![k] = n]
StAsk(t, k) == stSay[t][1] # "asks" /\ stSay' = [stSay EXCEPT ![t] = <<"asks", k, 0>>] /\ UNCHANGED stObj
StAnswer(t) == /\ stSay[t][1] = "asks" /\ stObj[stSay[t][2]] # 0
               /\ stSay' = [stSay EXCEPT ![t] = <<"has", stSay[t][2], stObj[stSay[t][2]]>>]
               /\ UNCHANGED stObj
StThrow(t) == /\ stSay[t][1] = "asks" /\ MayFail(stSay[t][2])
              /\ stSay' = [stSay EXCEPT ![t] = <<"threw", stSay[t][2], 0>>]
              /\ UNCHANGED stObj
StNext == \/ \E k \in Keys : StMake(k) /\ UNCHANGED stSay
          \/ \E t \in Threads : StAnswer(t) \/ StThrow(t) \/ \E k \in Keys : StAsk(t, k)
StSpec == StInit /\ [][StNext]_stVars
=============================================================================

------------------------------- MODULE PyLife ------------------------------
(***************************************************************************)
(* Rules, iterators, points and arrays in the hands of a Python user.      *)
(* What the user sees (LfSee): values that do not depend on which other    *)
(* objects are still held.  Below it a heap: a rule owns the memory of its *)
(* points, an iterator refers to the rule it walks over, a point to the    *)
(* iterator it came from; an object lives as long as it is held or kept by *)
(* a living one.  LfKeeps says which references keep their target.         *)
(***************************************************************************)
EXTENDS PySee, FiniteSets
CONSTANTS LfRules,        \* kinds of rules, 1..n
          LfLen,          \* length of a history
          LfKeeps         \* subset of {"iter", "point"}
VARIABLES lfSteps, lfSee, lfHeap, lfHold
lfVars == <<lfSteps, lfSee, lfHeap, lfHold>>

LfInit == /\ lfSteps = <<>>
          /\ lfSee = LfStart
          /\ lfHeap = <<>>
          /\ lfHold = [rule |-> 0, iter |-> 0, pt |-> <<0, 0>>]

LfOps == {<<"rule", k>> : k \in LfRules}
         \cup {<<w, 0>> : w \in {"iter", "get", "droprule", "dropiter", "write"}}
         \cup {<<w, q>> : w \in {"next", "droppoint"}, q \in {1, 2}}

(* the heap below: [kind, of, k, pos]; places are never used again here *)
LfObj(kind, of, k, pos) == [kind |-> kind, of |-> of, k |-> k, pos |-> pos]
LfStore(s) ==
  LET n == Len(lfHeap) + 1
  IN CASE s[1] = "rule" -> /\ lfHeap' = Append(lfHeap, LfObj("rule", 0, s[2], 0))
                           /\ lfHold' = [lfHold EXCEPT !.rule = n]
       [] s[1] = "iter" -> /\ lfHeap' = Append(lfHeap, LfObj("iter", lfHold.rule, 0, 0))
                           /\ lfHold' = [lfHold EXCEPT !.iter = n]
       [] s[1] = "next" -> LET p == lfHeap[lfHold.iter].pos + 1
                           IN /\ lfHeap' = Append([lfHeap EXCEPT ![lfHold.iter].pos = p], LfObj("point", lfHold.iter, 0, p))
                              /\ lfHold' = [lfHold EXCEPT !.pt[s[2]] = n]
       [] s[1] = "droprule" -> lfHeap' = lfHeap /\ lfHold' = [lfHold EXCEPT !.rule = 0]
       [] s[1] = "dropiter" -> lfHeap' = lfHeap /\ lfHold' = [lfHold EXCEPT !.iter = 0]
       [] s[1] = "droppoint" -> lfHeap' = lfHeap /\ lfHold' = [lfHold EXCEPT !.pt[s[2]] = 0]
       [] OTHER -> UNCHANGED <<lfHeap, lfHold>>
LfNext == /\ Len(lfSteps) < LfLen
          /\ \E s \in LfOps : /\ LfCan(lfSee, s)
                              /\ lfSteps' = Append(lfSteps, s)
                              /\ lfSee' = LfStep(lfSee, s)
                              /\ LfStore(s)
LfSpec == LfInit /\ [][LfNext]_lfVars

LfHeld == {lfHold.rule, lfHold.iter, lfHold.pt[1], lfHold.pt[2]} \ {0}
LfTargets(S) == {lfHeap[o].of : o \in {o \in S : lfHeap[o].kind \in LfKeeps}} \ {0}
LfAlive == LET a == LfHeld
               b == a \cup LfTargets(a)
           IN b \cup LfTargets(b)
LfRuleOf(o) == LET h == lfHeap[o]
               IN CASE h.kind = "rule" -> o
                    [] h.kind = "iter" -> h.of
                    [] OTHER -> lfHeap[h.of].of
(* nobody holds on to memory that was given back *)
LfNoDangling == \A o \in LfHeld : LfRuleOf(o) \in LfAlive
(* and the heap shows what the user is to see *)
LfShows ==
  /\ lfHold.rule # 0 => lfHeap[lfHold.rule].k = lfSee.rule
  /\ lfHold.iter # 0 => lfSee.iter = [k |-> lfHeap[LfRuleOf(lfHold.iter)].k, pos |-> lfHeap[lfHold.iter].pos]
  /\ \A q \in {1, 2} : lfHold.pt[q] # 0 =>
       lfSee.pt[q] = [k |-> lfHeap[LfRuleOf(lfHold.pt[q])].k, pos |-> lfHeap[lfHold.pt[q]].pos]
  /\ (lfHold.rule = 0) = (lfSee.rule = 0) /\ (lfHold.iter = 0) = (lfSee.iter.k = 0)
  /\ \A q \in {1, 2} : (lfHold.pt[q] = 0) = (lfSee.pt[q].k = 0)
=============================================================================

----------------------------- MODULE GenStrings ----------------------------
(* Enumerates token sequences to be parsed by the code. *)
EXTENDS PyStrings, Json
CONSTANTS FreeLen, FreeNames
Alphabet == {"(", ")", ",", " ", "2", "x"}
Forms == {
  <<"(", "N", ")">>, <<"(", " ", "N", " ", ")">>, <<"(", "N">>, <<"(", "N", ",", ")">>,
  <<"(", "N", ",", "M", ")">>, <<"(", " ", "N", " ", ",", " ", " ", "M", " ", ")">>, <<"(", "N", ",", "M">>,
  <<"(", ",", "N", ")">>, <<"(", "N", ",", "M", ",", "N", ")">>, <<"(", "N", ",", ",", "M", ")">>, <<"(", "M", ",", "x", ")">> }
Subst(f, n, m) == [k \in 1..Len(f) |-> IF f[k] = "N" THEN n ELSE IF f[k] = "M" THEN m ELSE f[k]]
VARIABLE gsToks
GSInit == \/ \E n \in FreeNames : gsToks = <<n>>
          \/ \E n \in Names \cup WrongNames : gsToks = <<n>>
          \/ \E n \in Names \cup {"cubes", "Cube"}, f \in Forms, a \in {"0", "1", "2", "3", "5", "7", "8", "31"}, b \in {"0", "1", "2", "3", "4", "6"} :
               gsToks = <<n>> \o Subst(f, a, b)
GSNext == /\ Len(gsToks) <= FreeLen /\ gsToks[1] \in FreeNames
          /\ \A k \in 2..Len(gsToks) : gsToks[k] \in Alphabet
          /\ \E t \in Alphabet : gsToks' = Append(gsToks, t)
GSSpec == GSInit /\ [][GSNext]_gsToks
GSShow == PrintT("H " \o ToJson(gsToks))
(* every token sequence has exactly one meaning, and that is total *)
GSMeaning == LET m == Meaning(gsToks) IN m.kind \in {"refused", "open"} \/ (m.type.dim \in 0..20 /\ (m.type.none \/ Len(m.type.word) = m.type.dim))
=============================================================================

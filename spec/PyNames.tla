------------------------------- MODULE PyNames -----------------------------
(* The texts that may stand for a type in Python. *)
EXTENDS PyStrings

PyNames(t) ==
  LET d == ToString(t.dim)
  IN IF t.none THEN {"none(" \o d \o ")"}
     ELSE IF \E n \in DOMAIN FixedNames : FixedNames[n] = t THEN {n \in DOMAIN FixedNames : FixedNames[n] = t}
     ELSE IF t = Simplex(t.dim) THEN {"simplex(" \o d \o ")"}
     ELSE IF t = Cube(t.dim) THEN {"cube(" \o d \o ")"}
     ELSE {"general(" \o ToString(IdOf(t.word) + k) \o ", " \o d \o ")" : k \in {0, 1}}
=============================================================================

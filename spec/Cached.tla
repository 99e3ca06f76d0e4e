------------------------------- MODULE Cached ------------------------------
(***************************************************************************)
(* Cached geometries as values.  A register holds a geometry; queries may  *)
(* fill a cache (what was computed last and for which geometry), copies    *)
(* and assignments carry the cache along.  Whatever the history, a cached  *)
(* value must belong to the geometry the register holds.                   *)
(*   steps: <<q, r>> a query of kind q on register r,                      *)
(*          <<10|11|13, r, s>> register r becomes a copy of register s     *)
(*                 (copy construction, assignment, move of a copy),        *)
(*          <<12, r, s>> swap, <<14, r, g>> register r becomes geometry g  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS CGeos, CAffine,       \* geometries and the affine ones among them
          CCopies, CMakes       \* kinds of copying, geometries a register can be reset to
QKinds == 0..7                  \* global local ie jt jit volume center affine
CFresh(g) == [geo |-> g, jit |-> 0, ie |-> 0]
CStart(gs) == [r \in DOMAIN gs |-> CFresh(gs[r])]
CQuery(c, q) ==
  IF c.geo \notin CAffine THEN c
  ELSE CASE q = 2 -> [c EXCEPT !.ie = IF @ = 0 THEN c.geo ELSE @]
         [] q = 5 -> [c EXCEPT !.ie = IF @ = 0 THEN c.geo ELSE @]
         [] q = 4 -> IF c.jit = 0 THEN [c EXCEPT !.jit = c.geo, !.ie = c.geo] ELSE c
         [] OTHER -> c
CStep(reg, s) ==
  CASE s[1] \in QKinds -> [reg EXCEPT ![s[2]] = CQuery(@, s[1])]
    [] s[1] \in {10, 11, 13} -> [reg EXCEPT ![s[2]] = reg[s[3]]]
    [] s[1] = 12 -> [reg EXCEPT ![s[2]] = reg[s[3]], ![s[3]] = reg[s[2]]]
    [] s[1] = 14 -> [reg EXCEPT ![s[2]] = CFresh(s[3])]
COps == {<<q, r>> : q \in {1, 2, 4, 5}, r \in {1, 2}}
        \cup {<<k, r, 3 - r>> : k \in CCopies, r \in {1, 2}}
        \cup {<<12, 1, 2>>, <<11, 1, 1>>}
        \cup {<<14, r, g>> : r \in {1, 2}, g \in CMakes}

VARIABLE cgReg
CInit == \E a, b \in CGeos : cgReg = CStart(<<a, b>>)
CNext == \E s \in COps : cgReg' = CStep(cgReg, s)
CSpec == CInit /\ [][CNext]_cgReg
CacheRight == \A r \in {1, 2} : cgReg[r].jit \in {0, cgReg[r].geo} /\ cgReg[r].ie \in {0, cgReg[r].geo}
                                /\ (cgReg[r].jit # 0 => cgReg[r].ie # 0)
=============================================================================

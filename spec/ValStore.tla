------------------------------ MODULE ValStore -----------------------------
(***************************************************************************)
(* Objects as values, as a user sees them.  A register is empty, holds an  *)
(* object of some value, or an object that was moved from, which may only  *)
(* be given a new value or be destroyed.                                   *)
(*   <<0, r, v>> register r gets a new object of value v                   *)
(*   <<1, r, v>> the object of r is assigned a temporary of value v        *)
(*   <<2, r, s>> register r gets a new copy of s                           *)
(*   <<3, r, s>> the object of r is assigned that of s (maybe itself)      *)
(*   <<4, r, s>> register r gets a new object moved from s                 *)
(*   <<5, r, s>> the object of s is moved into that of r                   *)
(*   <<6, r, s>> swap                                                      *)
(*   <<7, r, q>> question q to r                                           *)
(*   <<8, r, 0>> the object of r is destroyed                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VNone == 0
VMoved == -1
VLive(x) == x > 0
VMay(reg, s) ==
  CASE s[1] = 0 -> TRUE
    [] s[1] = 1 -> reg[s[2]] # VNone
    [] s[1] = 2 -> s[2] # s[3] /\ VLive(reg[s[3]])
    [] s[1] = 3 -> reg[s[2]] # VNone /\ VLive(reg[s[3]])
    [] s[1] = 4 -> s[2] # s[3] /\ VLive(reg[s[3]])
    [] s[1] = 5 -> s[2] # s[3] /\ reg[s[2]] # VNone /\ VLive(reg[s[3]])
    [] s[1] = 6 -> s[2] # s[3] /\ VLive(reg[s[2]]) /\ VLive(reg[s[3]])
    [] s[1] = 7 -> VLive(reg[s[2]])
    [] s[1] = 8 -> reg[s[2]] # VNone
    [] OTHER -> FALSE
VAfter(reg, s) ==
  CASE s[1] \in {0, 1} -> [reg EXCEPT ![s[2]] = s[3]]
    [] s[1] \in {2, 3} -> [reg EXCEPT ![s[2]] = reg[s[3]]]
    [] s[1] \in {4, 5} -> [reg EXCEPT ![s[2]] = reg[s[3]], ![s[3]] = VMoved]
    [] s[1] = 6 -> [reg EXCEPT ![s[2]] = reg[s[3]], ![s[3]] = reg[s[2]]]
    [] s[1] = 7 -> reg
    [] s[1] = 8 -> [reg EXCEPT ![s[2]] = VNone]
VOps(regs, makes, asks) ==
  {<<k, r, v>> : k \in {0, 1}, r \in regs, v \in makes}
  \cup {<<k, r, s>> : k \in {2, 3, 4, 5}, r \in regs, s \in regs}
  \cup {<<6, r, s>> : r \in regs, s \in regs}
  \cup {<<7, r, q>> : r \in regs, q \in asks}
  \cup {<<8, r, 0>> : r \in regs}
=============================================================================

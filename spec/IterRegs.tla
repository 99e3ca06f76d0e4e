------------------------------- MODULE IterRegs ----------------------------
(***************************************************************************)
(* How the type-erased iterators are made: each register owns a backend    *)
(* on the heap; copying clones it, assigning clones before the old one is  *)
(* released.  Refines registers that hold places.                          *)
(***************************************************************************)
EXTENDS IterOps, FiniteSets
CONSTANTS IrRegs, IrLast
VARIABLES irPlace, irPtr, irHeap
irVars == <<irPlace, irPtr, irHeap>>
IrCells == 1..(IrRegs + 1)
IrFree == -1
IrInit == /\ irPlace = [r \in 1..IrRegs |-> 0]
          /\ irPtr = [r \in 1..IrRegs |-> r]
          /\ irHeap = [c \in IrCells |-> IF c <= IrRegs THEN 0 ELSE IrFree]
IrFresh(h) == CHOOSE c \in IrCells : h[c] = IrFree
(* give register a a new backend at place v, then release the old one *)
IrPut(ptr, heap, a, v) ==
  LET c == IrFresh(heap) IN <<[ptr EXCEPT ![a] = c], [heap EXCEPT ![c] = v, ![ptr[a]] = IrFree]>>
IrDo(ptr, heap, s) ==
  CASE s[1] = 0 -> IrPut(ptr, heap, s[2], 0)
    [] s[1] = 1 -> IrPut(ptr, heap, s[2], IrLast)
    [] s[1] \in {2, 3} -> IrPut(ptr, heap, s[2], heap[ptr[s[3]]])
    [] s[1] = 4 -> <<ptr, [heap EXCEPT ![ptr[s[2]]] = @ + 1]>>
    [] OTHER -> IrPut(ptr, [heap EXCEPT ![ptr[s[2]]] = @ + 1], s[3], heap[ptr[s[2]]])
IrNext == \E s \in IterOpsOf(IrRegs) :
  /\ IterMay(irPlace, IrLast, s)
  /\ irPlace' = IterStep(irPlace, IrLast, s[1], s[2], s[3])
  /\ LET q == IrDo(irPtr, irHeap, s) IN irPtr' = q[1] /\ irHeap' = q[2]
IrSpec == IrInit /\ [][IrNext]_irVars
IrRefines == \A r \in 1..IrRegs : irHeap[irPtr[r]] = irPlace[r]
IrOwned == /\ \A r, q \in 1..IrRegs : r # q => irPtr[r] # irPtr[q]
           /\ Cardinality({c \in IrCells : irHeap[c] # IrFree}) = IrRegs
=============================================================================

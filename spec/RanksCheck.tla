----------------------------- MODULE RanksCheck ----------------------------
(***************************************************************************)
(* Vertex numbers are given one after the other.  At any time the order    *)
(* seen on any selection of the vertices - a sub-entity - is the same      *)
(* whether it is taken from the numbers themselves or from their reduced   *)
(* form, so elements that share the sub-entity agree on it.                *)
(***************************************************************************)
EXTENDS Ranks, TLC
CONSTANTS RkValues, RkLen
VARIABLE rkIds
RkInit == rkIds = <<>>
RkNext == Len(rkIds) < RkLen /\ \E v \in RkValues : rkIds' = Append(rkIds, v)
RkSpec == RkInit /\ [][RkNext]_rkIds
RkSelections(n) == UNION {{a \in [1..k -> 1..n] : Distinct(a)} : k \in 0..n}
RkValid == IsReduction(rkIds, Reduce(rkIds))
RkDense == Distinct(rkIds) => {Reduce(rkIds)[i] : i \in 1..Len(rkIds)} = 0..(Len(rkIds) - 1)
RkIdempotent == Reduce(Reduce(rkIds)) = Reduce(rkIds)
RkRestricts == \A a \in RkSelections(Len(rkIds)) : Reduce(Pick(Reduce(rkIds), a)) = Reduce(Pick(rkIds, a))
(* for distinct numbers there is only one reduction *)
RkOnlyOne == (Distinct(rkIds) /\ Len(rkIds) <= 3) =>
  \A r \in [1..Len(rkIds) -> 0..(Len(rkIds) - 1)] : IsReduction(rkIds, r) => r = Reduce(rkIds)
=============================================================================

---------------------------- MODULE TypeAlgebra ----------------------------
(* The types as a state machine: from a point or a shapeless type, Cone and *)
(* Prism reach every type; the invariants are the algebra the code relies  *)
(* on (indices are a bijection, extensions are injective, names unique).   *)
EXTENDS Types
VARIABLE taType
TAInit == taType \in {VertexT} \cup {NoneType(0)}
TACone == taType.dim < MaxDim /\ taType' = ConeOver(taType)
TAPrism == taType.dim < MaxDim /\ taType' = PrismOverType(taType)
TANext == TACone \/ TAPrism
TASpec == TAInit /\ [][TANext]_taType
AllTypes == TLCEval(UNION {{TypeAt(d, k) : k \in 0..(LocalSize(d) - 1)} : d \in 0..MaxDim})
TAKnown == taType \in AllTypes
TAInverse == TypeAt(taType.dim, LocalIndex(taType)) = taType
TABijective == \A t \in AllTypes : GlobalIndex(t) = GlobalIndex(taType) => t = taType
TARange == GlobalIndex(taType) \in Offset(taType.dim)..(Offset(taType.dim + 1) - 1)
TAExtend == taType.dim \in 1..(MaxDim - 1) /\ ~taType.none =>
              /\ ConeOver(taType) # PrismOverType(taType)
              /\ \A t \in AllTypes : t.dim = taType.dim /\ ~t.none /\ t # taType =>
                   ConeOver(t) # ConeOver(taType) /\ PrismOverType(t) # PrismOverType(taType)
TAVerts == ~taType.none /\ taType.dim <= 3 =>
             Cardinality({t \in StdShapes : t.dim = taType.dim /\ NumVerts(t) = NumVerts(taType)}) = 1
(* every type of every dimension is reached: one state per type *)
TAClosed == Cardinality(AllTypes) = Offset(MaxDim + 1)
=============================================================================

CONSTANT MaxDim = 6
SPECIFICATION TASpec
INVARIANTS TAKnown TAInverse TABijective TARange TAExtend TAVerts TAClosed
CHECK_DEADLOCK FALSE

CONSTANT MaxDim = 4
SPECIFICATION Spec
INVARIANTS Euler Unique OwnShape Closed Vertices Ridges Gauss Convex Extreme Tables
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS Kinds <- KindsReduce Deps <- FloatDepths Handles = {1, 2, 3, 4, 5} Depth = 12 MaxDim = 4 MaxSize = 3 MaxChannel = 6
INVARIANT Emit
INVARIANT TypeOK
INVARIANT Injective
INVARIANT OneDepth
CHECK_DEADLOCK FALSE

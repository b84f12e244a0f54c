SPECIFICATION GSpec
CONSTANTS Kinds <- KindsPow Deps <- FloatDepths Handles = {1, 2, 3, 4, 5} Depth = 10 MaxDim = 4 MaxSize = 3 MaxChannel = 5
INVARIANT Emit
INVARIANT TypeOK
INVARIANT Injective
INVARIANT OneDepth
CHECK_DEADLOCK FALSE

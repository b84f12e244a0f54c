SPECIFICATION GSpec
CONSTANTS Kinds <- KindsArith Deps <- AllDepths Handles = {1, 2, 3, 4, 5} Depth = 16 MaxDim = 4 MaxSize = 3 MaxChannel = 6
INVARIANT Emit
INVARIANT TypeOK
INVARIANT Injective
INVARIANT OneDepth
CHECK_DEADLOCK FALSE

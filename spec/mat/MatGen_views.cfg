SPECIFICATION GSpec
CONSTANTS Kinds <- KindsViews Deps <- AllDepths Handles = {1, 2, 3, 4, 5} Depth = 16 MaxDim = 4 MaxSize = 4 MaxChannel = 5
INVARIANT Emit
INVARIANT TypeOK
INVARIANT Injective
INVARIANT OneDepth
CHECK_DEADLOCK FALSE

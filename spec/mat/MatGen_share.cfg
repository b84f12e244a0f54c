SPECIFICATION GSpec
CONSTANTS Kinds <- KindsShare Deps <- AllDepths Handles = {1, 2, 3, 4, 5} Depth = 16 MaxDim = 4 MaxSize = 3 MaxChannel = 3
INVARIANT Emit
INVARIANT TypeOK
INVARIANT Injective
INVARIANT OneDepth
CHECK_DEADLOCK FALSE

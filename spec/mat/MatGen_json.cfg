SPECIFICATION GSpec
CONSTANTS Kinds <- KindsJson Deps <- AllDepths Handles = {1, 2, 3, 4, 5} Depth = 12 MaxDim = 4 MaxSize = 3 MaxChannel = 4
INVARIANT Emit
INVARIANT TypeOK
INVARIANT Injective
INVARIANT OneDepth
CHECK_DEADLOCK FALSE

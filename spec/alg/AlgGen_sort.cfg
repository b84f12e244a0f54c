SPECIFICATION GSpec
CONSTANTS Kinds <- KindsSort Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE

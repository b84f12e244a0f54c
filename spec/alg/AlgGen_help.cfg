SPECIFICATION GSpec
CONSTANTS Kinds <- KindsHelp Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANT Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE

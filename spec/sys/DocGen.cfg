SPECIFICATION GSpec
CONSTANTS Depth = 110 WriteUntil = 55
INVARIANT Emit
CHECK_DEADLOCK FALSE

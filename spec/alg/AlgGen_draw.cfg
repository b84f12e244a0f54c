SPECIFICATION GSpec
CONSTANTS Kinds <- KindsDraw Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE

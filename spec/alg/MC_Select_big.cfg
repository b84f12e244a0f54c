SPECIFICATION SSpec
CONSTANTS K = 4 Values = {1, 2, 3} Length = 6 Big = TRUE
INVARIANT HeapShape
INVARIANT HoldsTheBest
INVARIANT Collected
INVARIANT SortedPart
INVARIANT Sorted
CHECK_DEADLOCK FALSE

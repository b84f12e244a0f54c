SPECIFICATION SSpec
CONSTANTS K = 5 Values = {1, 2, 3, 4} Length = 7 Big = TRUE
INVARIANT HeapShape
INVARIANT HoldsTheBest
INVARIANT Collected
INVARIANT SortedPart
INVARIANT Sorted
CHECK_DEADLOCK FALSE

SPECIFICATION DSpec
CONSTANTS Vals <- SliceVals N = 5 Letters = {1, 2} M = 4 Caps = {0, 1, 3, 4}
INVARIANT SliceRight
INVARIANT LcsRight
INVARIANT BagRight
CHECK_DEADLOCK FALSE

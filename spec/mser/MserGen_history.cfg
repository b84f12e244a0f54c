SPECIFICATION GSpec
CONSTANTS Algs = {"v1", "v2", "ll", "ms"} Handles = {1, 2} Slots = {1, 2} Images = {0, 1, 2, 3} Params = {0, 1} Depth = 16 MaxInst = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE

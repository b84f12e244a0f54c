SPECIFICATION GSpec
CONSTANTS Algs = {"v1", "v2", "ll", "ms"} Handles = {1, 2} Slots = {1, 2, 3} Images = {0, 1} Params = {0} Depth = 22 MaxInst = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE

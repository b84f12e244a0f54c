SPECIFICATION Spec
CONSTANTS R = 2 C = 3 Levels = {0,1,2,4} Conn = 4
INVARIANTS Extremal Negative Sized Monotonic DupSelects
CHECK_DEADLOCK FALSE

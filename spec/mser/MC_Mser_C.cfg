SPECIFICATION Spec
CONSTANTS R = 1 C = 6 Levels = {0,1,2} Conn = 4
INVARIANTS Extremal Negative Sized Monotonic DupSelects
CHECK_DEADLOCK FALSE

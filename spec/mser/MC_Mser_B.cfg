SPECIFICATION Spec
CONSTANTS R = 3 C = 3 Levels = {0,1} Conn = 8
INVARIANTS Extremal Negative Sized Monotonic DupSelects
CHECK_DEADLOCK FALSE

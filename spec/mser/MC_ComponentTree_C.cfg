SPECIFICATION Spec
CONSTANTS R = 3 C = 3 Levels = {0,1,2} Conn = 8
INVARIANTS Agree Sizes Parents Nested
CHECK_DEADLOCK FALSE

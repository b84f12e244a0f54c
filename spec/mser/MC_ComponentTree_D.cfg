SPECIFICATION Spec
CONSTANTS R = 2 C = 5 Levels = {0,2,3} Conn = 4
INVARIANTS Agree Sizes Parents Nested
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS R = 2 C = 4 Levels = {0,1,256} Conn = 8
INVARIANTS Agree Sizes Parents Nested
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANT Says = 6
CONSTRAINT Small
INVARIANTS Suffix Newest Mine Limits
PROPERTIES Others
CHECK_DEADLOCK FALSE

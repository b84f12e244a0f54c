SPECIFICATION MSpec
CONSTANT Most = 6
CONSTRAINT Small
INVARIANTS TextBack BinBack Levels
CHECK_DEADLOCK FALSE

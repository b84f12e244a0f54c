SPECIFICATION MSpec
CONSTANT Most = 7
CONSTRAINT Small
INVARIANTS TextBack BinBack Levels
CHECK_DEADLOCK FALSE

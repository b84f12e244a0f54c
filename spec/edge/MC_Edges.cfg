SPECIFICATION MSpec
CONSTANTS
  H = 3
  W = 3
INVARIANTS Right Few
CHECK_DEADLOCK FALSE

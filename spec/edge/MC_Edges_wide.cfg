SPECIFICATION MSpec
CONSTANTS
  H = 3
  W = 4
INVARIANTS Right Few
CHECK_DEADLOCK FALSE

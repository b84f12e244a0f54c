SPECIFICATION MSpec
CONSTANTS
  H = 3
  W = 3
INVARIANTS Right Disjoint
CHECK_DEADLOCK FALSE

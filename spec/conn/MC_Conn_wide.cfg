SPECIFICATION MSpec
CONSTANTS
  H = 3
  W = 4
INVARIANTS Right Disjoint
CHECK_DEADLOCK FALSE

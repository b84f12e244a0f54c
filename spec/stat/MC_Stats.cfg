SPECIFICATION MSpec
CONSTANTS
  Threads = {1, 2, 3}
  Times = 4
  Locked = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS Sizes <- Sz2 Channels = 1 H = {1, 2} Ops <- ShareOps
INVARIANTS TypeOK Injective OneDepth Coherent Counted
PROPERTY WriteSeen
CHECK_DEADLOCK FALSE

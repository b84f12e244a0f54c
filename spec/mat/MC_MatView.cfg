SPECIFICATION MSpec
CONSTANTS Sizes <- Sz3 Channels = 1 H = {1} Ops <- ViewOps
INVARIANTS TypeOK Injective OneDepth Laws
CHECK_DEADLOCK FALSE

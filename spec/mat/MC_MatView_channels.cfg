SPECIFICATION MSpec
CONSTANTS Sizes <- Sz Channels = 2 H = {1} Ops <- ViewOps
INVARIANTS TypeOK Injective OneDepth Laws
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
INVARIANTS WellFormed RootStays
PROPERTIES Removal Kept Moves
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS Span = 2
CONSTRAINT Small
INVARIANT MeetFormula
INVARIANT HullFormula
INVARIANT SquareBounds
INVARIANT NormalTwice
INVARIANT ContainCorners
CHECK_DEADLOCK FALSE

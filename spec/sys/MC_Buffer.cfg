SPECIFICATION MSpec
CONSTANTS Longest = 2 Letters = {97, 10}
CONSTRAINT Short
INVARIANT InPlace
INVARIANT Alone
PROPERTY Frame
PROPERTY Sticky
PROPERTY Lines
CHECK_DEADLOCK FALSE

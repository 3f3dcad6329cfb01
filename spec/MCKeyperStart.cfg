SPECIFICATION MCSpec
CONSTANTS STARTS = 3 BUG = "" EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Whole
PROPERTY AsAsked
PROPERTY Kept
PROPERTY Once

SPECIFICATION MCSpec
CONSTANTS CMDS = 4 BUG = "" EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Distinct
INVARIANT Conserved
INVARIANT NeverNegative
INVARIANT Enough
PROPERTY AsAsked
PROPERTY Kept

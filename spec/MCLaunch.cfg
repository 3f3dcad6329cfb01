SPECIFICATION MCSpec
CONSTANTS CMDS = 4 BUG = "" EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Named
INVARIANT Complete
INVARIANT Registered
INVARIANT InOrder
INVARIANT Truthful
PROPERTY AsAsked

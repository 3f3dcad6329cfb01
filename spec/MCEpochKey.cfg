SPECIFICATION MCSpec
CONSTANTS N = 3 T = 2 BAD = 2 DUP = 1 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Exactly

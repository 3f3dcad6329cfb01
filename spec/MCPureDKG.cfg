SPECIFICATION MCSpec
CONSTANTS N = 3 T = 2 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Agreement
INVARIANT HonestIn
INVARIANT WrongOut
INVARIANT Enough

SPECIFICATION MCSpec
CONSTANTS PIECES = 4 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Canonical

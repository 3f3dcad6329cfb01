SPECIFICATION MCSpec
CONSTANTS L = 2 T = 2 LATE = 1 BYZ = 3 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Agreement
INVARIANT SameOutcome
INVARIANT HonestIn
INVARIANT AtMostOnce
INVARIANT OnlyInPhase
INVARIANT FairAccusation

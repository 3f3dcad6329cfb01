SPECIFICATION MCSpec
CONSTANTS ACTS = 3 FAULTS = 1 DOWNS = 1 WORLDS = 1 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Accounted
INVARIANT InOrder
INVARIANT AtMostOnce
INVARIANT Tracked
INVARIANT NeverIdle
PROPERTY NotPointless
PROPERTY NumbersGrow

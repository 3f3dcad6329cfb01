SPECIFICATION MCSpec
CONSTANTS L = 2 BLOCKS = 6 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT CheckInOnce
INVARIANT ConfigOnce
INVARIANT ConfigDue
INVARIANT Said
INVARIANT KeyOnce

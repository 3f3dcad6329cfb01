SPECIFICATION MCSpec
CONSTANTS SIGNS = 3 AGGS = 2 VERS = 1 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Sound
INVARIANT Unique

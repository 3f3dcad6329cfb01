SPECIFICATION MCSpec
CONSTANTS HEADSUP = 1 MARGIN = 3 BLOCKS = 14 CMDS = 5 BUG = "" EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT PickOK
INVARIANT Schedulable
INVARIANT Calendar
PROPERTY OwnerOnly
PROPERTY InTime

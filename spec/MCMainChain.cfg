SPECIFICATION MCSpec
CONSTANTS WORLD = "cfg" FOLLOW = 1 BLOCKS = 6 CALLS = 4 SYNCS = 2 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT ViewExact
INVARIANT Calendar
INVARIANT Partition
INVARIANT ExecutedOnce
INVARIANT ExecutedRight
INVARIANT ClosedOnly
INVARIANT Limits
INVARIANT AccusedExecuted
INVARIANT SlashedRight
PROPERTY NeverBack
PROPERTY PastStays
PROPERTY StepsGrow
PROPERTY ClosedStay

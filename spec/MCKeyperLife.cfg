SPECIFICATION Spec
CONSTANTS N = 4 LIVES = 2 VARIANT = "as_is" EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT NoLoss
INVARIANT NoneTwice
INVARIANT OnDisk
INVARIANT Ordered
INVARIANT AllDone
PROPERTY Changes

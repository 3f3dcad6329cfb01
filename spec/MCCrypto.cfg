SPECIFICATION MCSpec
CONSTANTS SHARES = 3 COMBS = 1 DECS = 1 EMIT = FALSE
CONSTANT Ps <- Primes
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT KeyNeedsShares
INVARIANT OpenNeedsShares

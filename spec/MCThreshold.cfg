SPECIFICATION MCSpec
CONSTANTS P = 5 N = 3 T = 2
CONSTANT Ps <- Primes
CHECK_DEADLOCK FALSE
INVARIANT Right
INVARIANT Only
INVARIANT Enough
INVARIANT Secret

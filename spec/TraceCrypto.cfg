SPECIFICATION TSpec
CONSTANT Ps <- Primes
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

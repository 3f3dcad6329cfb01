SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

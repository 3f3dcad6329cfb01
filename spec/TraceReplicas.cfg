SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
INVARIANT SavedBehind
INVARIANT SavedWasEnded

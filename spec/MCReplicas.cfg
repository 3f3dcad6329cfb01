SPECIFICATION MSpec
CONSTANTS MAXH = 2 BUG = FALSE
CHECK_DEADLOCK FALSE
INVARIANT SavedBehind
INVARIANT SavedWasEnded
INVARIANT NoContradiction

SPECIFICATION MCSpec
CONSTANTS N = 5
CHECK_DEADLOCK FALSE
INVARIANT AlwaysOrder
INVARIANT Bijective
PROPERTY Placed

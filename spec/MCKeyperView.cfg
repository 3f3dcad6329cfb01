SPECIFICATION MCSpec
CONSTANTS MAXH = 3 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT FunctionOfTheChain

SPECIFICATION MCSpec
CONSTANTS HONEST = {"a","b"} CORE = {"a","b"} LIARS = {"z"} THR = 2 SPAN = 1 TIMEOUT = 2 MAXN = 3 TXS = 2 EONS = 1 DOWNS = 0 SYNC = TRUE TALK = TRUE BUG = "" EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT Hidden
PROPERTY AsAsked

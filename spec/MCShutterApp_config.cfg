SPECIFICATION MCSpec
CONSTANTS KINDS = {"bc","bcs","end","ci"} MAXCFG = 2 MAXEON = 3 EMIT = TRUE GenSel = 1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT ConfigsAuthorised
INVARIANT VotesByCurrentKeypers
INVARIANT StartsAttested
INVARIANT AttestationsForLast

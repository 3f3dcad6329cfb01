SPECIFICATION MCSpec
CONSTANTS KINDS = {"bc","esv"} MAXCFG = 1 MAXEON = 2 EMIT = FALSE GenSel = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT ConfigsAuthorised
INVARIANT EonsJustified
INVARIANT NoDecidedVotePending
PROPERTY EonsAppendOnly

SPECIFICATION MCSpec
CONSTANTS KINDS = {"esv","dkg"} MAXCFG = 1 MAXEON = 1 EMIT = FALSE GenSel = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT RelayOnlyKeypers
INVARIANT EonsJustified

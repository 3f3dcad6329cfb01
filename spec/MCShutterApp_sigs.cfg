SPECIFICATION MCSpec
CONSTANTS KINDS = {"bc","ds","commit","crash"} MAXCFG = 1 MAXEON = 2 EMIT = FALSE GenSel = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT SigsOnlyKeypers
INVARIANT SavedAtBoundary

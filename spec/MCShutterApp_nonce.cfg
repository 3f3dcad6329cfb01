SPECIFICATION MCSpec
CONSTANTS KINDS = {"nonce","commit","crash"} MAXCFG = 1 MAXEON = 2 EMIT = FALSE GenSel = 1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT AdmissionBounded
INVARIANT SavedAtBoundary
PROPERTY NonceSafe

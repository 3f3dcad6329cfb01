SPECIFICATION MCSpec
CONSTANTS MENU = "sign" HEAD = 8 MEV = 2 SEV = 3 DECS = 4 RESTARTS = 1 STAG = 0 PER = 1 EMIT = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANT KeyNeedsThreshold
INVARIANT ShareAfterClose
INVARIANT SignsWhatIsThere
INVARIANT ExecutesAuthorised
INVARIANT InOrder
INVARIANT ExecutesAfterEnd
INVARIANT AccusesOnlyWrong
INVARIANT AppealsOnlyRight
INVARIANT WrongIsAccused
PROPERTY Once

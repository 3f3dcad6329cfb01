SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
INVARIANT ConfigsAuthorised VotesByCurrentKeypers StartsAttested AttestationsForLast AdmissionBounded RelayOnlyKeypers SigsOnlyKeypers EonsJustified NoDecidedVotePending SavedAtBoundary

SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Gen = TRUE
 Ns = {4, 6}
INVARIANT RunsHoldRows Emit
PROPERTY Kept FailedChangesNothing
CHECK_DEADLOCK FALSE

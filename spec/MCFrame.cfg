SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Gen = TRUE
INVARIANT UserUnchanged Isolated Emit
PROPERTY OldResultsKept
CHECK_DEADLOCK FALSE

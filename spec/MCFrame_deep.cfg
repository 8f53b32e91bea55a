SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Gen = TRUE
INVARIANT UserUnchanged Isolated Emit
PROPERTY OldResultsKept
CHECK_DEADLOCK FALSE

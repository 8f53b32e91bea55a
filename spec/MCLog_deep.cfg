SPECIFICATION Spec
CONSTANTS MaxN = 9
 MaxRuns = 2
 Files = {"index", "chain", "cov"}
 Gen = FALSE
INVARIANT Inv
PROPERTY AppendOnly Ends
CHECK_DEADLOCK FALSE

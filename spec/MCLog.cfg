SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxRuns = 2
 Files = {"index", "chain", "cov"}
 Gen = FALSE
INVARIANT Inv
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 8
 MaxRuns = 2
 Files = {"one", "two"}
 Gen = TRUE
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE

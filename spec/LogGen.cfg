SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxRuns = 2
 Files = {"one", "two"}
 Gen = TRUE
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE

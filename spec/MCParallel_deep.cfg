SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxW = 4
 Gen = TRUE
INVARIANT OwnResult OwnStream NoMoreThanWorkers EachOnce Emit
PROPERTY AllFinish
CHECK_DEADLOCK FALSE

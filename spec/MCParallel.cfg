SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxW = 3
 Gen = TRUE
INVARIANT OwnResult OwnStream NoMoreThanWorkers EachOnce Emit
PROPERTY AllFinish
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Steps = 3
 Deep = FALSE
 Gen = TRUE
INVARIANT Limits Defined Counters Covariance Balance Probability Emit
PROPERTY FactorKept SampleKept
CHECK_DEADLOCK TRUE

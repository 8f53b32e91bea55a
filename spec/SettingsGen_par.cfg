SPECIFICATION Spec
CONSTANT Kinds = {"par"}
INVARIANTS OptOk ParOk ModOk
CHECK_DEADLOCK FALSE

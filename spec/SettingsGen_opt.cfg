SPECIFICATION Spec
CONSTANT Kinds = {"opt"}
INVARIANTS OptOk ParOk ModOk
CHECK_DEADLOCK FALSE

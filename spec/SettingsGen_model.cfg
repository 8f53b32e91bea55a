SPECIFICATION Spec
CONSTANT Kinds = {"model"}
INVARIANTS OptOk ParOk ModOk
CHECK_DEADLOCK FALSE

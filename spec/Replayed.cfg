SPECIFICATION Spec
INVARIANTS Conforms
CHECK_DEADLOCK FALSE

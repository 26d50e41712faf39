SPECIFICATION Spec
INVARIANTS VisitsOnly PartsRight
CHECK_DEADLOCK FALSE

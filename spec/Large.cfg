SPECIFICATION Spec
INVARIANT AsSpecified
CHECK_DEADLOCK FALSE

SPECIFICATION SpecMC
INVARIANT ClosedIsRight
CHECK_DEADLOCK FALSE

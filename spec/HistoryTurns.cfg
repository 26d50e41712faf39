CONSTANTS
    Threads = {1}
    Handles = {1, 2}
    Addrs = {1, 2, 3, 4}
    MaxDepth = 2
    MaxOps = 9
    AnyAddr = FALSE
    Record = TRUE
    MaxTexts = 2
    Used = {"pair"}
    Times = {300, 66000}
    Script <- ManyTurns
SPECIFICATION Spec
INVARIANTS Distinct Alive Resolves Emit
CHECK_DEADLOCK FALSE

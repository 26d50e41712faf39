CONSTANTS
    Threads = {1}
    Handles = {1, 2, 3}
    Addrs = {1, 2, 3, 4}
    MaxDepth = 2
    MaxOps = 10
    AnyAddr = FALSE
    Record = TRUE
    MaxTexts = 2
    Used = {"pair"}
    Times = {257, 66000}
    Script <- ManyParses
SPECIFICATION Spec
INVARIANTS Distinct Alive Resolves Emit
CHECK_DEADLOCK FALSE

CONSTANTS
    Threads = {1}
    Handles = {1, 2, 3}
    Addrs = {1, 2, 3, 4}
    MaxDepth = 2
    MaxOps = 7
    AnyAddr = FALSE
    Record = TRUE
    MaxTexts = 2
    Used = {"pair"}
    Times = {254, 255, 256, 65535}
    Script <- ManyBuilds
SPECIFICATION Spec
INVARIANTS Distinct Alive Resolves Emit
CHECK_DEADLOCK FALSE

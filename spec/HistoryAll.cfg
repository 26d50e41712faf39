CONSTANTS
    Threads = {1}
    Handles = {1, 2, 3}
    Addrs = {1, 2, 3, 4}
    MaxDepth = 2
    MaxOps = 5
    AnyAddr = FALSE
    Record = TRUE
    MaxTexts = 2
    Used = {"pair", "list"}
    Times = {}
    Script <- FreeScript
SPECIFICATION Spec
INVARIANTS Distinct Alive Resolves Emit
CHECK_DEADLOCK FALSE

CONSTANTS
    Threads = {1, 2}
    Handles = {1, 2, 3}
    Addrs = {1, 2, 3}
    MaxDepth = 2
    MaxOps = 1
    AnyAddr = TRUE
    Record = FALSE
    MaxTexts = 1
    Used = {"list"}
    Times = {}
    Script <- FreeScript
SPECIFICATION Spec
VIEW Bare
INVARIANTS Distinct Alive Resolves
PROPERTY Local
CHECK_DEADLOCK FALSE

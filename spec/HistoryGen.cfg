CONSTANTS
    Threads = {1, 2}
    Handles = {1, 2, 3, 4, 5, 6}
    Addrs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
    MaxDepth = 3
    MaxOps = 36
    AnyAddr = FALSE
    Record = TRUE
    MaxTexts = 6
    Used = {"pair", "alt", "star", "lines", "map", "string", "list"}
    Times = {1, 3, 40}
    Script <- FreeScript
SPECIFICATION Spec
INVARIANTS Distinct Alive Resolves Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Returns AcceptsRight ValueRight CallsRight LocRight SourceRight ReasonRight LineColRight DebugRight
CHECK_DEADLOCK FALSE

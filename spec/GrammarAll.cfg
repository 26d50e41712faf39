CONSTANTS
    MaxLen = 5
    MaxRules = 2
SPECIFICATION Spec
INVARIANTS Emit AgreesWithGrammar
CHECK_DEADLOCK FALSE

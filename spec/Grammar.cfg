CONSTANTS
    MaxLen = 4
    MaxRules = 2
SPECIFICATION Spec
INVARIANTS Emit AgreesWithGrammar
CHECK_DEADLOCK FALSE

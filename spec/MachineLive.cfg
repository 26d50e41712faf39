SPECIFICATION FairSpec
PROPERTY Terminates
CHECK_DEADLOCK FALSE

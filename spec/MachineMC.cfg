SPECIFICATION Spec
INVARIANTS Meaning NeverStuck NoPanic Foremost1 ConvertLast AcceptedAll ErrBeforeFail CtxShape CtxPerRegion IteratorsOK
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS OffersAll ErrIfNone NoPanic NeverStuckAll CtxShape CtxPerRegion IteratorsOK
CHECK_DEADLOCK FALSE

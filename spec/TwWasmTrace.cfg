SPECIFICATION Spec
INVARIANT Contiguous
INVARIANT Accounted
CHECK_DEADLOCK FALSE

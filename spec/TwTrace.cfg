SPECIFICATION Spec
INVARIANT DerivedOK
CHECK_DEADLOCK FALSE

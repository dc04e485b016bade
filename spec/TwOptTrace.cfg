SPECIFICATION OptSpec
INVARIANT DerivedOK
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Changes = 2
INVARIANTS TypeOK One Emit
CHECK_DEADLOCK FALSE

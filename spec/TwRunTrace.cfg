SPECIFICATION Spec
INVARIANTS Complete Visible Untouched Preserved OnlyWhole
CHECK_DEADLOCK FALSE

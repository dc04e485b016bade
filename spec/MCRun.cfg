SPECIFICATION Spec
CONSTANT L = 3
INVARIANTS Complete Visible Untouched Preserved OnlyWhole Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

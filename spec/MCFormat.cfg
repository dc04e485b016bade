SPECIFICATION Spec
CONSTANT MaxPieces = 4
INVARIANTS Forced Auto Dirs Emit
CHECK_DEADLOCK FALSE

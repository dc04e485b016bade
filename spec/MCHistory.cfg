SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Unspoiled Present Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE

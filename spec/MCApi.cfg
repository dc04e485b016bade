SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Same HoldsLast ItemsInOrder Emit
CHECK_DEADLOCK FALSE

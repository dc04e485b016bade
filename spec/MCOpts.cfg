SPECIFICATION Spec
CONSTANT MaxFlags = 3
INVARIANTS Accepted Unordered Local Effect SetterSame Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Many = FALSE
INVARIANTS SizeAgrees UnitAgrees ItemAgrees Emit
CHECK_DEADLOCK FALSE

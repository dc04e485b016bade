SPECIFICATION Spec
CONSTANTS
  MaxAtoms = 2
INVARIANTS Agrees Anchors Choice Plain Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxTokens = 7
INVARIANTS Accepts Strings
PROPERTY Final
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
INVARIANTS Json Pasted Csv PastedCsv Laid Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS N = 3
          Loops = TRUE
INVARIANTS Equations Removal Tree Descending Ascending Simple Sane Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE

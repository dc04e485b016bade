SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
  Alphabet = "generic"
INVARIANTS NeverEmpty PlainKept Spelling Llvm Generic Words Emit
CHECK_DEADLOCK FALSE

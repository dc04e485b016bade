SPECIFICATION WSpec
CONSTANTS Depth = 2
          Many = FALSE
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE

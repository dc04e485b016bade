SPECIFICATION ISpec
CONSTANTS MaxOld = 2
          MaxNew = 2
INVARIANTS Anti Nothing Unchanged Sum Chain DiffLimits MonoSane MonoLimits Emit
CHECK_DEADLOCK FALSE

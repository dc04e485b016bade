SPECIFICATION Spec
INVARIANT Distinct
INVARIANT SumFits
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS Finds ReducedOK RhsOK Emit
CHECK_DEADLOCK FALSE

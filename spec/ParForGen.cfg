SPECIFICATION MCSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

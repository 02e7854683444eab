SPECIFICATION MCSpec
INVARIANTS Means InRange Emit
CHECK_DEADLOCK FALSE

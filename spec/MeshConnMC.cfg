SPECIFICATION MCSpec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE

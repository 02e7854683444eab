SPECIFICATION MCSpec
INVARIANTS Inv Emit
PROPERTIES AreaKept
CHECK_DEADLOCK FALSE

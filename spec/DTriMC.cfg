SPECIFICATION MCSpec
INVARIANTS Inv Emit
PROPERTIES SameSurface Counts
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS Plane Sym ShiftEnds Emit
CHECK_DEADLOCK FALSE

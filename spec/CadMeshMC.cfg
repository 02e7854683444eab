SPECIFICATION MCSpec
INVARIANTS Inv Owners RimClosed Disjoint Emit
CHECK_DEADLOCK FALSE

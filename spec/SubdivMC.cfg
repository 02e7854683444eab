SPECIFICATION MCSpec
INVARIANTS Conforming BoundaryKept InRange AllUsed Emit
CHECK_DEADLOCK FALSE

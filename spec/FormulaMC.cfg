SPECIFICATION MCSpec
INVARIANTS RoundTrip Computes Emit EmitTree
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS Refines ProductOK UniqueOK Emit
CHECK_DEADLOCK FALSE

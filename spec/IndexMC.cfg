SPECIFICATION MCSpec
INVARIANTS KdOK RingOK OnceOK Emit
CHECK_DEADLOCK FALSE

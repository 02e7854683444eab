SPECIFICATION MCSpec
INVARIANTS SearchOK NearOK ContainOK CodeOK Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS FixedTrue Monotone Complete Emit
CHECK_DEADLOCK FALSE

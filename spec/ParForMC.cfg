SPECIFICATION MCSpec
INVARIANTS Once Still Emit
PROPERTIES Keeps Ends
CHECK_DEADLOCK FALSE

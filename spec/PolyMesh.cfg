SPECIFICATION Spec
INVARIANTS AreaKept Progress Done Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS Hull2OK Turns Hull3OK Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS Brackets Quotes AnyDelimiter Whole Emit
CHECK_DEADLOCK FALSE

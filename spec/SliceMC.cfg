SPECIFICATION MCSpec
INVARIANTS TwoWays LoopsOK DoneOK Emit
CHECK_DEADLOCK FALSE

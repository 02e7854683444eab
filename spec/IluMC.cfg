SPECIFICATION MCSpec
INVARIANTS PatternOK RuleOK Symmetric Closed Nested FactorOK CompleteOK Emit
CHECK_DEADLOCK FALSE

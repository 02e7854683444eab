SPECIFICATION MCSpec
INVARIANTS Basis PhaseTwo Infeasible Optimal NoBound Emit
CHECK_DEADLOCK FALSE

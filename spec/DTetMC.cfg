SPECIFICATION Spec
INVARIANTS AllSolid Covers TwoSided EmptySpheres Determined AllUsed Emit
PROPERTIES Local
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Region FlipConvex EmptyCircles ForceProgress Emit
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS EndsNearest OnlyThere Exists NoneCloser Formula Bounded Emit
CHECK_DEADLOCK FALSE

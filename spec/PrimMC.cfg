SPECIFICATION Spec
INVARIANTS Manifold Euler Conn Emit
CHECK_DEADLOCK FALSE

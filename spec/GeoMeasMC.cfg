SPECIFICATION Spec
INVARIANTS Volumes Moments Closed Inertia Moved Inside Emit
CHECK_DEADLOCK FALSE

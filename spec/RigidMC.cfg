SPECIFICATION Spec
INVARIANTS Composed Carried Orthogonal Conjugate Forms Homomorphism Emit
CHECK_DEADLOCK FALSE

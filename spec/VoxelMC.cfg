SPECIFICATION MCSpec
INVARIANTS Closed Decoded Encloses Duality Codec Geodesic Emit
CHECK_DEADLOCK FALSE

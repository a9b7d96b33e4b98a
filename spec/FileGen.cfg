SPECIFICATION Spec
INVARIANTS Bounds Emit
CHECK_DEADLOCK FALSE

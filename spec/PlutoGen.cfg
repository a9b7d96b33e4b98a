SPECIFICATION Spec
INVARIANTS Exclusive Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Order Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Once Order Emit
CHECK_DEADLOCK FALSE

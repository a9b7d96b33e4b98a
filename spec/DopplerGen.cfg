CONSTANTS Rate = 4
 Seconds = 3
SPECIFICATION Spec
INVARIANTS Schedule Counted Emit
CHECK_DEADLOCK FALSE

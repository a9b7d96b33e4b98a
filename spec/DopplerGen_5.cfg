CONSTANTS Rate = 4
 Seconds = 5
SPECIFICATION Spec
INVARIANTS Schedule Counted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Size = 1
 Blocking = FALSE
 Puts = 5
INVARIANTS Order OnlyPut Bounded NothingLostWhenBlocking NothingElseLost DeliveredBeforeEnd NewestOverwritten
PROPERTY Termination
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Size = 2
 Blocking = TRUE
 Puts = 5
INVARIANTS Order OnlyPut Bounded NothingLostWhenBlocking NothingElseLost DeliveredBeforeEnd NewestOverwritten
PROPERTY Termination
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Size = 3
 Blocking = TRUE
 Puts = 5
INVARIANTS Order OnlyPut Bounded NothingLostWhenBlocking NothingElseLost DeliveredBeforeEnd NewestOverwritten
PROPERTY Termination
CHECK_DEADLOCK FALSE

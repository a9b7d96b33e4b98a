CONSTANTS Begin <- SBegin
 Guards <- SGuards
 Effect <- SEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

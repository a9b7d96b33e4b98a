CONSTANTS Begin <- TBegin
 Guards <- PGuards
 Effect <- PEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

CONSTANTS Begin <- BBegin
 Guards <- BGuards
 Effect <- BEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

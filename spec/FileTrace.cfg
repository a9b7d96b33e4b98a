CONSTANTS Begin <- FBegin
 Guards <- FGuards
 Effect <- FEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

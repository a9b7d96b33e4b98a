CONSTANTS Begin <- LBegin
 Guards <- LGuards
 Effect <- LEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

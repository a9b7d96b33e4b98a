CONSTANTS Begin <- DBegin
 Guards <- DGuards
 Effect <- DEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

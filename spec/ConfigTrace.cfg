CONSTANTS Begin <- CBegin
 Guards <- CGuards
 Effect <- CEffect
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

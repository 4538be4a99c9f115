INIT Init
NEXT Next
CONSTANT Aspect = "portals"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

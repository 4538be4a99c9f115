INIT Init
NEXT Next
CONSTANT Aspect = "pipeline"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

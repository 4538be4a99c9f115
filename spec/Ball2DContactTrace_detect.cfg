CONSTANT Aspect = "detect"
INIT Init
NEXT Next
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
 Hi = 4
 MaxIt = 2

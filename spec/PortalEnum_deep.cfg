INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS
 Hi = 5
 MaxIt = 7

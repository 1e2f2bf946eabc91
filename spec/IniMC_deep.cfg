CONSTANTS N = 7
 Alphabet = {91, 93, 61, 59, 32, 10, 97}
INIT Init
NEXT Next
INVARIANT OneValue InSection Prefix Clean Again
CHECK_DEADLOCK FALSE

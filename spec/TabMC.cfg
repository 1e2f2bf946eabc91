CONSTANTS N = 5
 Alphabet = {9, 10, 35, 49, 45, 97}
 Header = 1
INIT Init
NEXT Next
INVARIANT Shape Finds TextAgain Saved
CHECK_DEADLOCK FALSE

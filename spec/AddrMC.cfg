CONSTANTS Chars = {46, 48, 49, 58, 91, 93, 102}
 Max = 6
 Octets = {0, 9, 10, 255}
 Ports = {0, 7, 65535}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION RSpec
INVARIANT TypeOK
PROPERTIES NoEarlyValue ConsumedOnce Released
CHECK_DEADLOCK FALSE

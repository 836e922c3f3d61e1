SPECIFICATION TSpec
CONSTANTS Cap = 65536 Chunk = 1023
INVARIANT Judge
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANTS Lines Verbatim Pairs
CHECK_DEADLOCK FALSE

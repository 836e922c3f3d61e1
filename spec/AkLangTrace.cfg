SPECIFICATION TSpec
INVARIANTS Verdict Shaken Tidy NoEarlyRun Quiet Chains AllBuilt
CHECK_DEADLOCK FALSE

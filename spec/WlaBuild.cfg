SPECIFICATION Spec
INVARIANTS Function Paths
CHECK_DEADLOCK FALSE

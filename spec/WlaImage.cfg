SPECIFICATION Spec
INVARIANTS Once Inside Sound
CHECK_DEADLOCK FALSE

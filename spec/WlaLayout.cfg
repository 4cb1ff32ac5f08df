SPECIFICATION Spec
INVARIANTS Inside NoGaps Alternatives
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS StackSound InBank Values
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Parents OneEach Seen
CHECK_DEADLOCK FALSE

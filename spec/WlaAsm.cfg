SPECIFICATION Spec
INVARIANTS Nesting Loops Visible Taken TypeOK
CHECK_DEADLOCK FALSE

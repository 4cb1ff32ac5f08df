SPECIFICATION Spec
INVARIANTS Columns Waiting Units Marks Codes Handles
CHECK_DEADLOCK FALSE

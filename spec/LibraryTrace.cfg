SPECIFICATION Spec
INVARIANT Ok_
CHECK_DEADLOCK FALSE

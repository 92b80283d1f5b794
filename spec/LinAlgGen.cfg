SPECIFICATION Spec
INVARIANTS Laws Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE

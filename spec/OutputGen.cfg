SPECIFICATION Spec
INVARIANTS Laws Emit
PROPERTY ReadBack
CHECK_DEADLOCK FALSE

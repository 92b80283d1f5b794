SPECIFICATION Spec
INVARIANTS Honest Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Coherent Inherits Reversed Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Theorems Emit
PROPERTY Local
CHECK_DEADLOCK FALSE

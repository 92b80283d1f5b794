SPECIFICATION Spec
INVARIANTS Wired Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Bounded LeavesSum Local Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Parens OnlyKnown Emit
CHECK_DEADLOCK FALSE

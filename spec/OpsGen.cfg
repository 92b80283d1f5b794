SPECIFICATION Spec
INVARIANTS NFSound SubstSound Emit
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE

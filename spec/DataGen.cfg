SPECIFICATION Spec
INVARIANTS FitSound Emit
PROPERTIES Frame LastWins
CHECK_DEADLOCK FALSE

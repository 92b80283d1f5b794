SPECIFICATION Spec
VIEW View
INVARIANTS MeaningIsComputed IndexSound DegreeSound Emit
CHECK_DEADLOCK FALSE

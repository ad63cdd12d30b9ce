SPECIFICATION Spec
INVARIANTS Law Swap
CHECK_DEADLOCK FALSE

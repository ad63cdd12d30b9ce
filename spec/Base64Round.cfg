SPECIFICATION Spec
CONSTANT MaxBytes = 4
INVARIANT Inverts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS Agrees Canonical
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Agrees Canonical
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

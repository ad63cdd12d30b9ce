SPECIFICATION Spec
INVARIANT Agrees
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT TreesOrdered
CHECK_DEADLOCK TRUE

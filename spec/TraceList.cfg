SPECIFICATION Spec
INVARIANT HandlesUnique
CHECK_DEADLOCK TRUE

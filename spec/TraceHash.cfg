SPECIFICATION Spec
INVARIANT TablesFunctional
CHECK_DEADLOCK TRUE

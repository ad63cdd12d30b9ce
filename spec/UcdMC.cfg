SPECIFICATION Spec
INVARIANTS Classes Surrogates Decompositions Composites QuickChecks Cases
CHECK_DEADLOCK FALSE

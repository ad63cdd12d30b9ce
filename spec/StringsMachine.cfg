SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS Inside SplitRight AtomsRight StripRight Unique
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

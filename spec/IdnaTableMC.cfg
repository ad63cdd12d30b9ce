SPECIFICATION Spec
INVARIANTS OneStatus Mapped Final Ascii Unusable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Fits InText Refuses Decodes RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

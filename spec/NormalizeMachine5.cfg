SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxMarks = 3
INVARIANTS Decomposes Recomposes Refuses Idempotent QuickSound Measured
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

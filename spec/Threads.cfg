SPECIFICATION Spec
CONSTANTS Workers = {1, 2, 3}
          Steps = 4
          Ops = 2
          Shared = FALSE
INVARIANTS Alone Undisturbed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

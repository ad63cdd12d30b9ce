SPECIFICATION Spec
CONSTANTS Workers = {1, 2}
          Steps = 2
          Ops = 2
          Shared = TRUE
INVARIANTS Alone
CHECK_DEADLOCK FALSE

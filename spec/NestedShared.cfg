SPECIFICATION Spec
CONSTANTS Hosts = {1, 2}
          Leaves = {3}
          Depth = 2
          Calls = 1
          Shared = TRUE
INVARIANTS Alone
CHECK_DEADLOCK FALSE

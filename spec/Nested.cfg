SPECIFICATION Spec
CONSTANTS Hosts = {1, 2, 3, 4}
          Leaves = {5}
          Depth = 3
          Calls = 2
          Shared = FALSE
INVARIANTS Alone Undisturbed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

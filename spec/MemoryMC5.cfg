SPECIFICATION Spec
CONSTANTS Blocks = {1,2,3,4,5}
          Containers = {1, 2}
INVARIANTS AllHeld Apart Quiet
CHECK_DEADLOCK FALSE

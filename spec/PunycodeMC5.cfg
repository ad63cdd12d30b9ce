SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Alphabet = {97, 57, 45, 128, 252, 253, 19968, 40869, 65536, 131072}
INVARIANTS RoundTrip Digits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

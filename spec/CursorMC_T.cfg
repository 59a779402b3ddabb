SPECIFICATION Spec
CONSTANTS
  VN = 3
  EN = 2
  STEPS = 7
INVARIANTS Same Reads Rests
CHECK_DEADLOCK FALSE

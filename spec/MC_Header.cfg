SPECIFICATION Spec
CONSTANTS
  Units <- UnitsQ
  MaxLen = 5
  EmitOn = TRUE
INVARIANTS Agree Idempotent SimpleId RefusesStray NoColon Shape Refold Generate
CHECK_DEADLOCK FALSE

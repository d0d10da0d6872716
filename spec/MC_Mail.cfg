SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  EmitOn = TRUE
INVARIANTS Agree Lossless NamesOk Generate
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE

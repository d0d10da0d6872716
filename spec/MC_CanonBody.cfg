SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 10, 32, 9, 97}
  MaxLen = 6
  EmitOn = TRUE
INVARIANTS AgreeSimple AgreeRelaxed Idempotent Coarser TrailingLines CrInert Generate
PROPERTY EmittedIsFinal
CHECK_DEADLOCK FALSE

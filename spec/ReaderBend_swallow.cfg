SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 128, 194, 224}
  MaxLen = 3
  Bend = "swallow"
INVARIANTS
  Reads
  StrictIsValidity
  HandlersAgree
  Clean
  EscapeLossless
  Restarts
CHECK_DEADLOCK FALSE

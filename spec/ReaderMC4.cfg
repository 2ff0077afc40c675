SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 128, 144, 159, 224, 237, 240, 244}
  MaxLen = 4
  Bend = "none"
INVARIANTS
  Reads
  StrictIsValidity
  HandlersAgree
  Clean
  EscapeLossless
  Restarts
CHECK_DEADLOCK FALSE

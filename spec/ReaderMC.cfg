SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 128, 143, 144, 160, 191, 193, 194, 224, 237, 240, 244, 245}
  MaxLen = 3
  Bend = "none"
INVARIANTS
  Reads
  StrictIsValidity
  HandlersAgree
  Clean
  EscapeLossless
  Restarts
CHECK_DEADLOCK FALSE

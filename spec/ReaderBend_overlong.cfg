SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 128, 160, 224, 240}
  MaxLen = 3
  Bend = "overlong"
INVARIANTS
  Reads
  StrictIsValidity
  HandlersAgree
  Clean
  EscapeLossless
  Restarts
CHECK_DEADLOCK FALSE

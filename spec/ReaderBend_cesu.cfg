SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 128, 160, 237}
  MaxLen = 3
  Bend = "cesu"
INVARIANTS
  Reads
  StrictIsValidity
  HandlersAgree
  Clean
  EscapeLossless
  Restarts
CHECK_DEADLOCK FALSE

CONSTANTS OEmit = TRUE
 Shares = "nothing"
 OQuanta = "2401"
 OCalls = "one"
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE

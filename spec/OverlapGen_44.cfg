CONSTANTS OEmit = TRUE
 Shares = "nothing"
 OQuanta = "44"
 OCalls = "one"
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE

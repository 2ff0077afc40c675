CONSTANTS OEmit = TRUE
 Shares = "nothing"
 OQuanta = "222"
 OCalls = "one"
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE

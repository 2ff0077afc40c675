CONSTANTS OEmit = TRUE
 Shares = "nothing"
 OQuanta = "241"
 OCalls = "one"
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE

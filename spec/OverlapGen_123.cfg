CONSTANTS OEmit = TRUE
 Shares = "nothing"
 OQuanta = "123"
 OCalls = "one"
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE

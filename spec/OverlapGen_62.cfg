CONSTANTS OEmit = TRUE
 Shares = "nothing"
 OQuanta = "62"
 OCalls = "one"
SPECIFICATION Spec
INVARIANTS Emitted

CHECK_DEADLOCK FALSE

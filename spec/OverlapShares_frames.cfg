CONSTANTS OEmit = FALSE
 Shares = "frames"
 OQuanta = "44"
 OCalls = "all"
SPECIFICATION Spec
INVARIANTS Alone
VIEW View
CHECK_DEADLOCK FALSE

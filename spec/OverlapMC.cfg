CONSTANTS OEmit = FALSE
 Shares = "nothing"
 OQuanta = "443"
 OCalls = "all"
SPECIFICATION Spec
INVARIANTS Alone
VIEW View
CHECK_DEADLOCK FALSE

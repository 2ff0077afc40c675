CONSTANTS OEmit = FALSE
 Shares = "flag"
 OQuanta = "44"
 OCalls = "all"
SPECIFICATION Spec
INVARIANTS Alone
VIEW View
CHECK_DEADLOCK FALSE

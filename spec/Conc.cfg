SPECIFICATION Spec
CONSTANTS
 Recheck = TRUE
 AtomicEnd = TRUE
 Second = TRUE
INVARIANTS Held NothingLeft Complete Once InOrder Agree Final SameEnd NobodyLeft Torn Report
CHECK_DEADLOCK FALSE

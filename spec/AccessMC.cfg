SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS K = 3
 M = 3
INVARIANTS Found Counted AnyOK InOK

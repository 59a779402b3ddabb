SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS K = 3
 M = 4
INVARIANTS Found Counted AnyOK InOK

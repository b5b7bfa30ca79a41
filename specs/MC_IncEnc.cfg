SPECIFICATION Spec
INVARIANTS Meaning UnsatRight Realisable LastEncoded Trivial
CHECK_DEADLOCK FALSE
CONSTANTS
 Ty = "tot"
 Depth = 3
 Gen = FALSE
 W2 = 2

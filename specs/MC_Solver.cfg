SPECIFICATION Spec
INVARIANTS Verdicts Valued Cored Named Implementable
CHECK_DEADLOCK FALSE
CONSTANTS
 B = "minisat"
 Depth = 4
 Gen = FALSE

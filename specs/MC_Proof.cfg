SPECIFICATION Spec
INVARIANTS Implies Preserves Denoted Positive Tests
CHECK_DEADLOCK FALSE
CONSTANTS
 NV = 2
 Depth = 2
 Coef = 1

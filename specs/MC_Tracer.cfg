SPECIFICATION Spec
INVARIANTS Sound True
VIEW Seen
CHECK_DEADLOCK FALSE
CONSTANTS
 NV = 2
 Adds = 2
 Steps = 2
 Ants = FALSE
 Gen = FALSE
 Depth = 0

SPECIFICATION Spec
INVARIANT MeansAtMostOne
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 7
 MaxG = 4

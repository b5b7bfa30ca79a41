SPECIFICATION Spec
INVARIANT MeansAtMostOne
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 9
 MaxG = 5

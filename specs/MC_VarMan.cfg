SPECIFICATION Spec
INVARIANTS NeverReused Covered Injective InUse ReverseInverts
CHECK_DEADLOCK FALSE
CONSTANTS
 Ty = "reindex"
 Depth = 4
 Top = 2
 Gen = FALSE

---------------------------- MODULE T_Parse ----------------------------
EXTENDS Parse, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- PaStep, Blank <- PaBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

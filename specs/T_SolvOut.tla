---------------------------- MODULE T_SolvOut ----------------------------
EXTENDS SolvOut, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- SoStep, Blank <- SoBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

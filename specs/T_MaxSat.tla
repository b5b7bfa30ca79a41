---------------------------- MODULE T_MaxSat ----------------------------
EXTENDS MaxSat, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- MsStep, Blank <- MsBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

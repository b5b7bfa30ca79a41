------------------------------ MODULE T_IncEnc ------------------------------
EXTENDS IncEnc, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- IncStep, Blank <- IncBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

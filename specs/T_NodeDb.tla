---------------------------- MODULE T_NodeDb ----------------------------
EXTENDS NodeDb, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- NdStep, Blank <- NdBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

---------------------------- MODULE T_RoundTrip ----------------------------
EXTENDS RoundTrip, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- RtStep, Blank <- RtBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

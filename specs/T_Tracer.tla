---------------------------- MODULE T_Tracer ----------------------------
EXTENDS Tracer, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- TrStep, Blank <- TrBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

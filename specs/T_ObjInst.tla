---------------------------- MODULE T_ObjInst ----------------------------
EXTENDS ObjInst, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- OiStep, Blank <- OiBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

---------------------------- MODULE T_ConstrObj ----------------------------
EXTENDS ConstrObj, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- CoStep, Blank <- CoBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

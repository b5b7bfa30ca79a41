---------------------------- MODULE T_OneShot ----------------------------
EXTENDS OneShot, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- OsStep, Blank <- OsBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

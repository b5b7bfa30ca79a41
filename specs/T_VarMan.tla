---------------------------- MODULE T_VarMan ----------------------------
EXTENDS VarMan, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- VmStep, Blank <- VmBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

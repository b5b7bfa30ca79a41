---------------------------- MODULE T_Tools ----------------------------
EXTENDS Tools, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- TlStep, Blank <- TlBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

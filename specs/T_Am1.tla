---------------------------- MODULE T_Am1 ----------------------------
EXTENDS Am1, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- Am1Step, Blank <- Am1Blank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

---------------------------- MODULE T_Solver ----------------------------
EXTENDS Solver, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- SlvStep, Blank <- SlvBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

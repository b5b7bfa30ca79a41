---------------------------- MODULE T_Proof ----------------------------
EXTENDS Proof, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- PrStep, Blank <- PrBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

------------------------------ MODULE T_Capi ------------------------------
EXTENDS Capi, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- CapiStep, Blank <- CapiBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

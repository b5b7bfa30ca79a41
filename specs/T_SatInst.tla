---------------------------- MODULE T_SatInst ----------------------------
EXTENDS SatInst, TraceData
VARIABLES l, st, dead
T == INSTANCE TraceRun WITH Trace <- TraceLog, Step <- SiStep, Blank <- SiBlank
TSpec == T!RInit /\ [][T!RNext]_<<l, st, dead>>
=============================================================================

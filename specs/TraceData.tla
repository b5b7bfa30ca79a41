------------------------------ MODULE TraceData -----------------------------
\* the recorded execution under validation (evaluated once)
EXTENDS Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================

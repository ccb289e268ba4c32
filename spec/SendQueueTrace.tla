--------------------------- MODULE SendQueueTrace ---------------------------
EXTENDS SendQueue, TLC, Json, IOUtils
VARIABLES tr, i, s, p
TheTraces == JsonDeserialize(IOEnv.TRACES)
INSTANCE LinTrace WITH S0 <- SQS0, Step <- SQStep, Traces <- TheTraces
ASSUME ResetRegs
=============================================================================

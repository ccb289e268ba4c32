---- MODULE ApiTrace ----
EXTENDS Api, TLC, Json, IOUtils
VARIABLES tr, i, s, p
TheTraces == JsonDeserialize(IOEnv.TRACES)
INSTANCE LinTrace WITH S0 <- ApiS0, Step <- ApiStep, Traces <- TheTraces
ASSUME ResetRegs
====

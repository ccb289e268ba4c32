---- MODULE FileOpenTrace ----
EXTENDS FileOpen, TLC, Json, IOUtils
VARIABLES tr, i, s, p
TheTraces == JsonDeserialize(IOEnv.TRACES)
INSTANCE LinTrace WITH S0 <- FoS0, Step <- FoStep, Traces <- TheTraces
ASSUME ResetRegs
====

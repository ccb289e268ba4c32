---- MODULE QuotaTrace ----
EXTENDS Quota, TLC, Json, IOUtils
VARIABLES tr, i, s, p
TheTraces == JsonDeserialize(IOEnv.TRACES)
INSTANCE LinTrace WITH S0 <- QuotaS0, Step <- QuotaStep, Traces <- TheTraces
ASSUME ResetRegs
====

---------------------------- MODULE CoordTrace ----------------------------
EXTENDS Coord, TLC, Json, IOUtils
VARIABLES tr, i, s, p
TheTraces == JsonDeserialize(IOEnv.TRACES)
INSTANCE LinTrace WITH S0 <- CoordS0, Step <- CoordStep, Traces <- TheTraces
ASSUME ResetRegs
=============================================================================

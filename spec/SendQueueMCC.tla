---------------------------- MODULE SendQueueMCC ----------------------------
EXTENDS SendQueueMC, SendQueueConfigs
=============================================================================

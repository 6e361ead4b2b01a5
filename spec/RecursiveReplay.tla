------------------------- MODULE RecursiveReplay -------------------------
EXTENDS Recursive, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES run, pos, st
INSTANCE Replay
=============================================================================

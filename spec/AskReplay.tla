--------------------------- MODULE AskReplay ---------------------------
EXTENDS Ask, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES run, pos, st
INSTANCE Replay
=============================================================================

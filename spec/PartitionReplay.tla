----------------------------- MODULE PartitionReplay -----------------------------
EXTENDS Partition, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES run, pos, st
INSTANCE Replay
=============================================================================

--------------------------- MODULE ForwardScripts ---------------------------
EXTENDS Forward, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES st, script
INSTANCE Scripts
Sound == [][OwnValue(Input.cfg, st, st', script'[Len(script')])]_<<st, script>>
=============================================================================

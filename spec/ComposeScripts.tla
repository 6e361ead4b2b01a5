------------------------- MODULE ComposeScripts -------------------------
EXTENDS Compose, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES st, script
INSTANCE Scripts
Sound == [][Composed(Input.cfg, st, st', script'[Len(script')])]_<<st, script>>
=============================================================================

------------------------- MODULE RecursiveScripts -------------------------
EXTENDS Recursive, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES st, script
INSTANCE Scripts
Sound == [][Counted(Input.cfg, st, st', script'[Len(script')])]_<<st, script>>
=============================================================================

---------------------------- MODULE BindScripts -----------------------------
EXTENDS Bind, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES st, script
INSTANCE Scripts
Sound == [][Contained(Input.cfg, st, st', script'[Len(script')])]_<<st, script>>
=============================================================================

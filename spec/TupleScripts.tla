---------------------------- MODULE TupleScripts ----------------------------
EXTENDS Tuple, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES st, script
INSTANCE Scripts
Sound == [][LET op == script'[Len(script')] c == Input.cfg IN
              Independent(c, st, st', op) /\ ThroughRefs(c, st, st', op)]_<<st, script>>
=============================================================================

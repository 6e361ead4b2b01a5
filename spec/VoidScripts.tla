---------------------------- MODULE VoidScripts -----------------------------
EXTENDS Void, Json, IOUtils
Input == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES st, script
INSTANCE Scripts
LastOp == LET op == script'[Len(script')] IN
          IF op[1] \in {"call", "ccall"} THEN <<op[1], op[2]>> ELSE op
Sound == [][RoundTrip(Input.cfg) /\ Separate(Input.cfg, st, st', LastOp)]_<<st, script>>
=============================================================================

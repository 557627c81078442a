------------------------------- MODULE GenBase -------------------------------
(* Writing behaviours generated by TLC, one JSON value per line.              *)
EXTENDS Json, IOUtils, TLC, Sequences, Integers
Emit(v) == Serialize(ToJson(v) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Thorough == IOEnv.TIER = "thorough"
=============================================================================

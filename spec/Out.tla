-------------------------------- MODULE Out --------------------------------
(* Writing lines to a file. *)
EXTENDS IOUtils, Sequences
AppendLine(str, file) ==
  Serialize(str \o "\n", file, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

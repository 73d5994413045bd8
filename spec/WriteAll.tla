------------------------------ MODULE WriteAll ------------------------------
(***************************************************************************)
(* Terminal.Write over a backend that accepts what a script says: the      *)
(* slice is offered again from where the previous call left off, until it  *)
(* is delivered, an error is reported, or the backend accepts nothing.     *)
(* Every response the backend can make is explored (Accept); the complete  *)
(* scripts are written out with the required outcome.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Out
CONSTANT MaxLen
Env(n, dflt) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE dflt
OutFile == Env("OUT", "")

VARIABLES len, log, sent, res   \* res: <<>> or <<count, outcome>>, outcome \in {"ok", "error", "short", "late"}
vars == <<len, log, sent, res>>
Init == len \in 0..MaxLen /\ log = <<>> /\ sent = 0 /\ res = <<>>

Accept(n, e) ==
  /\ res = <<>> /\ sent < len /\ n \in 0..(len - sent)
  /\ log' = Append(log, <<n, IF e THEN 1 ELSE 0>>)
  /\ sent' = sent + n
  \* "late": everything was accepted, and an error came with the last piece
  /\ res' = IF e THEN <<sent', IF sent' = len THEN "late" ELSE "error">> ELSE IF n = 0 THEN <<sent', "short">> ELSE <<>>
  /\ UNCHANGED len
Finish ==
  /\ res = <<>> /\ sent = len
  /\ res' = <<len, "ok">>
  /\ UNCHANGED <<len, log, sent>>
Report ==
  /\ res # <<>> /\ Len(res) = 2
  /\ res' = Append(res, "reported")
  /\ IF OutFile = "" THEN TRUE ELSE AppendLine(ToJson([len |-> len, log |-> log, n |-> res[1], outcome |-> res[2]]), OutFile)
  /\ UNCHANGED <<len, log, sent>>
Next == (\E n \in 0..MaxLen, e \in BOOLEAN : Accept(n, e)) \/ Finish \/ Report
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

C16Count == /\ sent <= len
            /\ res # <<>> => /\ res[1] = sent
                             /\ (res[2] = "ok" <=> (sent = len /\ \A i \in 1..Len(log) : log[i][2] = 0))
                             /\ (sent < len => res[2] \in {"error", "short"})
C16WriteEnds == <>(res # <<>>)
=============================================================================

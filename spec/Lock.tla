-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* The lock discipline of the terminal: the read loop and goroutines that  *)
(* use the API, with                                                       *)
(*   T   the terminal lock          F   the lock of a TTYFrontend          *)
(*   E   the lock of a TeeBackend                                          *)
(* and an application that produces output chunks and reads its input only *)
(* when all its output has been taken (the worst case for a writer).       *)
(*                                                                         *)
(* An update of the terminal state is two halves with a callback between;  *)
(* `half' is TRUE in the middle of one.  Whoever looks at the state must   *)
(* find it whole; a callback must run under T; the loop must not hold T    *)
(* while it waits for input; everybody gets done.                          *)
(*                                                                         *)
(* Variant names a broken discipline that the model must reject (negative  *)
(* controls: LockBad*.cfg):                                                *)
(*  "attach"   Attach takes F before T                                     *)
(*  "keywrite" SendKey holds T while it writes                             *)
(*  "waitlock" the loop keeps T while waiting for the rest of a sequence   *)
(*  "resize"   Resize does not take T                                      *)
(*  "tee"      the tee lock is held during the read                        *)
(*  "teewrite" the tee lock is held while the tee's writer works           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads,   \* API goroutines
          Calls,     \* calls each makes
          Chunks,    \* output chunks of the application, each one update
          Variant

Ops == {"snap", "resize", "key", "write", "tee", "attach", "detach"}
Loop == "loop"
Nobody == "none"
Actors == Threads \cup {Loop}

VARIABLES pc,      \* actor -> label
          left,    \* API goroutine -> calls left
          T, F, E, \* holder of each lock
          half,    \* an update is half done
          quiet,   \* chunks not yet delivered
          mid      \* the loop is in the middle of a sequence
vars == <<pc, left, T, F, E, half, quiet, mid>>

Init ==
  /\ pc = [a \in Actors |-> IF a = Loop THEN "wait" ELSE "idle"]
  /\ left = [a \in Threads |-> Calls]
  /\ T = Nobody /\ F = Nobody /\ E = Nobody
  /\ half = FALSE /\ quiet = Chunks /\ mid = FALSE

Go(a, l) == pc' = [pc EXCEPT ![a] = l]
TakeT(a) == T = Nobody /\ T' = a
TakeF(a) == F = Nobody /\ F' = a

--------------------------------------------------------------------------
(* the loop: read (through the tee), lock, update with a callback, unlock  *)
LRead ==
  /\ pc[Loop] = "wait" /\ quiet > 0
  /\ IF Variant = "tee" THEN E = Loop ELSE TRUE
  /\ quiet' = quiet - 1
  /\ Go(Loop, "tee") /\ UNCHANGED <<left, T, F, E, half, mid>>
\* (broken) the tee lock around the read
LBadTee ==
  /\ Variant = "tee" /\ pc[Loop] = "wait" /\ E = Nobody
  /\ E' = Loop /\ UNCHANGED <<pc, left, T, F, half, quiet, mid>>
\* which writer there is, under the lock
LTee ==
  /\ pc[Loop] = "tee" /\ E \in {Nobody, Loop}
  /\ E' = IF Variant = "teewrite" THEN Loop ELSE Nobody
  /\ Go(Loop, "teew") /\ UNCHANGED <<left, T, F, half, quiet, mid>>
\* the writer may itself use the API: replace the tee, look at the screen
LTeeWrite ==
  /\ pc[Loop] = "teew"
  /\ \/ E' = IF E = Loop THEN Nobody ELSE E
     \/ E = Nobody /\ T = Nobody /\ UNCHANGED E
  /\ Go(Loop, IF T = Loop THEN "upd1" ELSE "lock") /\ UNCHANGED <<left, T, F, half, quiet, mid>>
LLock ==
  /\ pc[Loop] = "lock" /\ TakeT(Loop)
  /\ Go(Loop, "upd1") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
\* the chunk ends inside a sequence (nothing to do yet), or completes an update
LUpd1 ==
  /\ pc[Loop] = "upd1"
  /\ \/ mid' = TRUE /\ Go(Loop, "unlock") /\ UNCHANGED half
     \/ mid' = FALSE /\ half' = TRUE /\ Go(Loop, "call")
  /\ UNCHANGED <<left, T, F, E, quiet>>
LCall ==
  /\ pc[Loop] = "call" /\ F = Nobody     \* takes F, draws, releases it
  /\ half' = FALSE /\ Go(Loop, "unlock") /\ UNCHANGED <<left, T, F, E, quiet, mid>>
LUnlock ==
  /\ pc[Loop] = "unlock"
  /\ T' = IF Variant = "waitlock" /\ mid THEN Loop ELSE Nobody
  /\ Go(Loop, "wait") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
LoopStep == LRead \/ LBadTee \/ LTee \/ LTeeWrite \/ LLock \/ LUpd1 \/ LCall \/ LUnlock

--------------------------------------------------------------------------
(* API goroutines                                                          *)
Start(a) ==
  /\ pc[a] = "idle" /\ left[a] > 0
  /\ \E o \in Ops : Go(a, o)
  /\ left' = [left EXCEPT ![a] = @ - 1]
  /\ UNCHANGED <<T, F, E, half, quiet, mid>>

\* snapshot under the lock
Snap(a) ==
  \/ pc[a] = "snap" /\ TakeT(a) /\ Go(a, "snap1") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
  \/ pc[a] = "snap1" /\ T' = Nobody /\ Go(a, "idle") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
Resize(a) ==
  \/ /\ pc[a] = "resize"
     /\ IF Variant = "resize" THEN UNCHANGED T ELSE TakeT(a)
     /\ Go(a, "rs1") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
  \/ pc[a] = "rs1" /\ half' = TRUE /\ Go(a, "rs2") /\ UNCHANGED <<left, T, F, E, quiet, mid>>
  \/ pc[a] = "rs2" /\ F = Nobody /\ half' = FALSE /\ Go(a, "rs3") /\ UNCHANGED <<left, T, F, E, quiet, mid>>
  \/ /\ pc[a] = "rs3" /\ T' = IF T = a THEN Nobody ELSE T
     /\ Go(a, "idle") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
\* modes are read under the lock, the report is written without it
Key(a) ==
  \/ pc[a] = "key" /\ TakeT(a) /\ Go(a, "key1") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
  \/ /\ pc[a] = "key1" /\ T' = IF Variant = "keywrite" THEN a ELSE Nobody
     /\ Go(a, "write") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
\* the application takes input once its own output is taken
Write(a) ==
  /\ pc[a] = "write" /\ quiet = 0 /\ pc[Loop] = "wait"
  /\ T' = IF T = a THEN Nobody ELSE T
  /\ Go(a, "idle") /\ UNCHANGED <<left, F, E, half, quiet, mid>>
Tee(a) ==
  /\ pc[a] = "tee" /\ E = Nobody /\ Go(a, "idle") /\ UNCHANGED <<left, T, F, E, half, quiet, mid>>
Attach(a) ==
  \/ /\ pc[a] = "attach"
     /\ IF Variant = "attach" THEN TakeF(a) /\ UNCHANGED T ELSE TakeT(a) /\ UNCHANGED F
     /\ Go(a, "at1") /\ UNCHANGED <<left, E, half, quiet, mid>>
  \/ /\ pc[a] = "at1"
     /\ IF Variant = "attach" THEN TakeT(a) /\ UNCHANGED F ELSE TakeF(a) /\ UNCHANGED T
     /\ Go(a, "at2") /\ UNCHANGED <<left, E, half, quiet, mid>>
  \/ pc[a] = "at2" /\ T' = Nobody /\ F' = Nobody /\ Go(a, "idle") /\ UNCHANGED <<left, E, half, quiet, mid>>
Detach(a) ==
  \/ pc[a] = "detach" /\ TakeF(a) /\ Go(a, "de1") /\ UNCHANGED <<left, T, E, half, quiet, mid>>
  \/ pc[a] = "de1" /\ F' = Nobody /\ Go(a, "idle") /\ UNCHANGED <<left, T, E, half, quiet, mid>>

ApiStep(a) == Start(a) \/ Snap(a) \/ Resize(a) \/ Key(a) \/ Write(a) \/ Tee(a) \/ Attach(a) \/ Detach(a)

Done == quiet = 0 /\ pc[Loop] = "wait" /\ \A a \in Threads : pc[a] = "idle" /\ left[a] = 0
Stutter == Done /\ UNCHANGED vars
Next == LoopStep \/ (\E a \in Threads : ApiStep(a)) \/ Stutter
Spec == Init /\ [][Next]_vars /\ WF_vars(LoopStep) /\ \A a \in Threads : WF_vars(ApiStep(a))

--------------------------------------------------------------------------
Looking == {"snap1", "key1", "at2"}                   \* reads the state
Whole == \A a \in Threads : pc[a] \in Looking => ~half
Updating == {<<Loop, "upd1">>, <<Loop, "call">>} \cup {<<a, l>> : a \in Threads, l \in {"rs1", "rs2", "rs3"}}
UnderLock == \A u \in Updating : pc[u[1]] = u[2] => T = u[1]
WaitsFree == pc[Loop] \in {"wait", "teew"} => T # Loop
TeeFree == pc[Loop] = "teew" => E # Loop
NoHold == \A a \in Threads : pc[a] = "idle" => T # a /\ F # a
Finishes == <>Done
=============================================================================

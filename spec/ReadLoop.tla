------------------------------ MODULE ReadLoop ------------------------------
(***************************************************************************)
(* How bytes get from the backend to the interpreter: a backend that       *)
(* answers every Read as a script says, a buffered reader that passes big  *)
(* reads through, a token reader with a growing buffer, and the loop on    *)
(* top.  Bytes are numbered in the order the backend returns them; the     *)
(* stream is divided into tokens, some of which (characters) are taken     *)
(* only when they are complete, the others (control sequences) byte by     *)
(* byte.                                                                   *)
(*                                                                         *)
(* A script is a sequence of offers [n, e]: n bytes, handed out in pieces  *)
(* as large as the caller's buffer allows, the last piece together with    *)
(* error e (0 none, 1 end of input, 2 failure); n = 0 with e = 0 is a read *)
(* that returns nothing.  After an error every further read fails.         *)
(*                                                                         *)
(* Sizes are in terms of the buffer size S; the harness replays each       *)
(* script with S standing for the real buffers' size.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Out

CONSTANTS S,            \* size of the buffered reader, and first size of the token reader
          MaxOffers

Env(n, dflt) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE dflt
OutFile == Env("OUT", "")
Shard == atoi(Env("SHARD", "0"))
NShard == atoi(Env("NSHARD", "1"))

\* offers in units of S
Units == << <<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<2, -1>>, <<2, 0>>, <<2, 1>>, <<3, 1>> >>
Size(u) == u[1] * S + u[2]

\* lengths of the stream's tokens, over and over; odd positions are characters
TokLens == <<1, 4, 2, 1, 3, 6, 1, 2>>
RECURSIVE TokAt(_, _, _)
\* the token byte i (from 1) belongs to: <<its first byte, length, is it a character>>
TokAt(i, at, k) ==
  LET l == TokLens[((k - 1) % Len(TokLens)) + 1] IN
  IF i < at + l THEN <<at, l, (k % 2) = 1>> ELSE TokAt(i, at + l, k + 1)
Tok(i) == TokAt(i, 1, 1)

VARIABLES script,  \* units and the error of the last offer, chosen at the start
          left,    \* what remains of it: offers still to be made
          pos,     \* bytes handed out so far
          bb, be,  \* the buffered reader: its bytes, its pending error
          rd, cap, \* the token reader: its bytes, its capacity
          ask,     \* <<>>, or what the token reader is waiting for: <<room>>
          got,     \* bytes interpreted
          st       \* "run" | "stopped"
vars == <<script, left, pos, bb, be, rd, cap, ask, got, st>>

Offers(u, e) == [ i \in 1..Len(u) |-> [n |-> Size(Units[u[i]]), e |-> IF i = Len(u) THEN e ELSE 0] ]
Total(u) == LET RECURSIVE sum(_)
                sum(i) == IF i > Len(u) THEN 0 ELSE Size(Units[u[i]]) + sum(i + 1)
            IN sum(1)
Scripts == (UNION { [1..m -> 1..Len(Units)] : m \in 1..MaxOffers }) \X {1, 2}
Mine(s) == NShard = 1 \/ (LET RECURSIVE h(_)
                              h(i) == IF i > Len(s[1]) THEN s[2] ELSE s[1][i] + 11 * h(i + 1)
                          IN h(1) % NShard = Shard)

Init ==
  /\ script \in {s \in Scripts : Mine(s)}
  /\ left = Offers(script[1], script[2])
  /\ pos = 0 /\ bb = <<>> /\ be = 0 /\ rd = <<>> /\ cap = S /\ ask = <<>> /\ got = <<>> /\ st = "run"

Min2(a, b) == IF a < b THEN a ELSE b
Bytes(a, n) == [ i \in 1..n |-> a + i ]

(* The backend's answer to a Read into room bytes: <<n, e, left'>>.        *)
Answer(room) ==
  IF left = <<>> THEN <<0, script[2], <<>> >>
  ELSE LET o == Head(left)  n == Min2(o.n, room) IN
       IF n = o.n THEN <<n, o.e, Tail(left)>>
       ELSE <<n, 0, <<[n |-> o.n - n, e |-> o.e]>> \o Tail(left)>>

\* can the loop take something from what the token reader holds?
Ready ==
  /\ rd # <<>>
  /\ LET k == Tok(rd[1]) IN k[3] => Len(rd) >= k[2]

Interpret ==
  /\ st = "run" /\ ask = <<>> /\ Ready
  /\ LET k == Tok(rd[1])  n == IF k[3] THEN k[2] ELSE 1 IN
     /\ got' = got \o SubSeq(rd, 1, n)
     /\ rd' = SubSeq(rd, n + 1, Len(rd))
  /\ UNCHANGED <<script, left, pos, bb, be, cap, ask, st>>

(* The token reader makes room (moving what it holds to the front, doubling *)
(* a full buffer) and asks for more.                                        *)
Ask ==
  /\ st = "run" /\ ask = <<>> /\ ~Ready
  /\ cap' = IF Len(rd) = cap THEN 2 * cap ELSE cap
  /\ ask' = <<cap' - Len(rd)>>
  /\ UNCHANGED <<script, left, pos, bb, be, rd, got, st>>

\* n bytes bs and error e reach the token reader
Deliver(bs, e) ==
  /\ rd' = rd \o bs
  /\ ask' = IF bs = <<>> /\ e = 0 THEN ask ELSE <<>>      \* nothing at all: ask again
  /\ st' = IF bs = <<>> /\ e # 0 THEN "stopped" ELSE "run"

FromBuffer ==
  /\ st = "run" /\ ask # <<>> /\ bb # <<>>
  /\ LET n == Min2(Len(bb), ask[1]) IN
     /\ Deliver(SubSeq(bb, 1, n), 0)
     /\ bb' = SubSeq(bb, n + 1, Len(bb))
  /\ UNCHANGED <<script, left, pos, be, cap, got>>

PendingError ==
  /\ st = "run" /\ ask # <<>> /\ bb = <<>> /\ be # 0
  /\ Deliver(<<>>, be)
  /\ be' = 0
  /\ UNCHANGED <<script, left, pos, bb, cap, got>>

Through ==      \* a large read goes straight to the backend
  /\ st = "run" /\ ask # <<>> /\ bb = <<>> /\ be = 0 /\ ask[1] >= S
  /\ LET a == Answer(ask[1]) IN
     /\ Deliver(Bytes(pos, a[1]), a[2])
     /\ pos' = pos + a[1] /\ left' = a[3]
  /\ UNCHANGED <<script, bb, be, cap, got>>

Refill ==
  /\ st = "run" /\ ask # <<>> /\ bb = <<>> /\ be = 0 /\ ask[1] < S
  /\ LET a == Answer(S) IN
     /\ pos' = pos + a[1] /\ left' = a[3]
     /\ IF a[1] = 0 THEN Deliver(<<>>, a[2]) /\ UNCHANGED <<bb, be>>
        ELSE LET n == Min2(a[1], ask[1]) IN
             /\ Deliver(Bytes(pos, n), 0)
             /\ bb' = Bytes(pos + n, a[1] - n) /\ be' = a[2]
  /\ UNCHANGED <<script, cap, got>>

Report ==
  /\ st = "stopped" /\ ask = <<>>
  /\ ask' = <<0>>
  /\ IF OutFile = "" THEN TRUE
     ELSE AppendLine(ToJson([offers |-> [ i \in 1..Len(script[1]) |-> Units[script[1][i]] ], e |-> script[2], total |-> pos, got |-> Len(got)]), OutFile)
  /\ UNCHANGED <<script, left, pos, bb, be, rd, cap, got, st>>

Next == Interpret \/ Ask \/ FromBuffer \/ PendingError \/ Through \/ Refill \/ Report
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

--------------------------------------------------------------------------
\* every byte returned is in exactly one place, in order
C16Once == got \o rd \o bb = Bytes(0, pos)
\* interpretation is never ahead of a complete character, and at the end
\* nothing interpretable is left, whatever came with the error included
C16All == st = "stopped" => /\ bb = <<>> /\ pos = Total(script[1])
                            /\ ~Ready
C16Bounds == Len(rd) <= cap /\ Len(bb) <= S
\* the loop stops
C16Stops == <>(st = "stopped")
=============================================================================

------------------------------- MODULE Follow -------------------------------
(* What the specification requires for given inputs.  The file IOEnv.PROGS  *)
(* holds one program per line: [w, h, ops = <<[k, b, z, m]...>>] with m = 1 *)
(* where the kind is only a guess (a mutated token).  The programs are      *)
(* found by coverage-guided search in the implementation; the behaviours    *)
(* written here are replayed into it like those of Gen and Enum.            *)
EXTENDS TermJson, TermProps, SequencesExt

VARIABLES t, prev, tok, n, log, pi
vars == <<t, prev, tok, n, log, pi>>
View == <<pi, n>>

Progs   == ndJsonDeserialize(IOEnv.PROGS)
OutFile == IOEnv.OUT
Buf     == IOEnv.BUF
Mode    == IOEnv.MODE
NoMid   == IOEnv.NOMID = "1"

Init ==
  /\ pi \in 1..Len(Progs)
  /\ t = NewTerminal(Progs[pi].w, Progs[pi].h, Buf, Mode)
  /\ prev = t
  /\ tok = [k |-> "none", b |-> <<>>, z |-> <<>>]
  /\ n = 0
  /\ log = <<>>

\* does the buffer implementation matter for this input?
Mid(k) == k.k # "resize" /\ k.k \notin InputKinds /\
  [Feed(Fresh(t), k.b) EXCEPT !.buf = "x"] # [Feed([Fresh(t) EXCEPT !.buf = "grid"], k.b) EXCEPT !.buf = "x"]

Home == [k |-> "goto", b |-> <<27, 91, 72>>, z |-> <<>>]

Emit(b, lg, m) ==
  IF m < Len(Progs[pi].ops) THEN TRUE
  ELSE AppendLine(ToJson([w |-> Progs[pi].w, h |-> Progs[pi].h, buf |-> Buf, mode |-> Mode, profile |-> "fuzz", legal |-> 0,
                         steps |-> lg, trail |-> Trail(b)]), OutFile)

Next ==
  /\ n < Len(Progs[pi].ops)
  /\ LET o == Progs[pi].ops[n + 1]
         k0 == [k |-> o.k, b |-> o.b, z |-> o.z] IN
     \E k \in {IF ~(NoMid /\ Mid(k0)) THEN k0 ELSE IF ~Mid(Home) THEN Home ELSE [Home EXCEPT !.b = <<>>]} :
       /\ prev' = t
       /\ t' = Apply(t, k)
       /\ tok' = IF o.k \in InputKinds \cup {"resize"} \/ (o.m = 0 /\ Clean(t)) THEN k ELSE [k EXCEPT !.k = "setup"]
       /\ n' = n + 1
       /\ log' = Append(log, Image(t, t', k))
       /\ Emit(t', log', n')
       /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars

TypeOK == TermOK(t)
C02 == P02(prev, tok, t)
C03 == P03(prev, tok, t)
C04 == P04(prev, tok, t)
C05 == P05(prev, tok, t)
C06 == P06(prev, tok, t)
C07 == P07(prev, tok, t)
C08 == P08(prev, tok, t)
C09 == P09(prev, tok, t)
C10 == P10(prev, tok, t)
C11 == P11(t)
C12 == P12(prev, tok, t)
C13 == P13(prev, tok, t)
C14 == P14(prev, tok, t)
C17 == P17(prev, tok, t)
C18 == P18(prev, tok, t)
C19 == P19(prev, tok, t)
C20 == P20(prev, tok, t)
=============================================================================

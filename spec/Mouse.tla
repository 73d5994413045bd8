------------------------------- MODULE Mouse -------------------------------
(***************************************************************************)
(* Mouse reports.  An event is [btn 0..3 (3: none), press, mods, x, y]     *)
(* with mods a sum of shift 4, meta 8, control 16, motion 32, wheel 64.    *)
(* The application selected a tracking mode (0 off, 1 press, 2 press and   *)
(* release, 3 motion with a button, 4 any motion) and an encoding (0 X10,  *)
(* 1 UTF-8, 2 SGR).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TermText

Motion(e) == (e.mods \div 32) % 2 = 1

\* which events a tracking mode reports
Wanted(e, mode) ==
  CASE mode = 0 -> FALSE
    [] mode = 1 -> e.press /\ ~Motion(e)
    [] mode = 2 -> ~Motion(e)
    [] mode = 3 -> Motion(e) => e.btn # 3
    [] mode = 4 -> TRUE

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

\* X10 and UTF-8 have no room for the button of a release: it becomes 3
Cb(e) == (IF e.press THEN e.btn ELSE 3) + e.mods

Report(e, enc) ==
  CASE enc = 0 -> <<27, 91, 77, 32 + Cb(e), 32 + Clamp(e.x, 1, 223), 32 + Clamp(e.y, 1, 223)>>
    [] enc = 1 -> <<27, 91, 77>> \o Encode8(32 + Cb(e)) \o Encode8(32 + e.x) \o Encode8(32 + e.y)
    [] enc = 2 -> <<27, 91, 60>> \o Dec(e.btn + e.mods) \o <<59>> \o Dec(e.x) \o <<59>> \o Dec(e.y) \o <<IF e.press THEN 77 ELSE 109>>

Bytes(e, mode, enc) == IF Wanted(e, mode) THEN Report(e, enc) ELSE <<>>

--------------------------------------------------------------------------
(* The receiving application. *)
RECURSIVE Fields(_, _, _)
Fields(s, cur, out) ==
  IF s = <<>> THEN Append(out, cur)
  ELSE IF s[1] = 59 THEN Fields(Tail(s), 0, Append(out, cur))
  ELSE Fields(Tail(s), cur * 10 + (s[1] - 48), out)
RECURSIVE Chars(_, _)
Chars(s, out) ==
  IF s = <<>> THEN out
  ELSE LET n == IF s[1] < 128 THEN 1 ELSE NeedOf(s[1])
       IN Chars(SubSeq(s, n + 1, Len(s)), Append(out, IF n = 1 THEN s[1] ELSE Decode8(SubSeq(s, 1, n))))

\* <<button bits, press, x, y>>
DecReport(s, enc) ==
  IF enc = 2
  THEN LET f == Fields(SubSeq(s, 4, Len(s) - 1), 0, <<>>) IN <<f[1], s[Len(s)] = 77, f[2], f[3]>>
  ELSE LET c == IF enc = 0 THEN SubSeq(s, 4, Len(s)) ELSE Chars(SubSeq(s, 4, Len(s)), <<>>)
           b == c[1] - 32
       IN <<b, b % 4 # 3, c[2] - 32, c[3] - 32>>

IsByteSeq(s) == \A i \in 1..Len(s) : s[i] \in 0..255

MouseInv(e, mode, enc, s) ==
  LET d == DecReport(s, enc) IN
  /\ IsByteSeq(s)
  \* nothing is written exactly when the mode excludes the event
  /\ mode = 0 => s = <<>>
  /\ (mode = 1 /\ ~e.press) => s = <<>>
  /\ (mode \in {1, 2} /\ Motion(e)) => s = <<>>
  /\ (mode = 3 /\ Motion(e) /\ e.btn = 3) => s = <<>>
  /\ (mode # 0 /\ e.press /\ ~Motion(e)) => s # <<>>
  /\ (mode >= 2 /\ ~Motion(e)) => s # <<>>
  /\ (mode = 3 /\ e.btn # 3) => s # <<>>
  /\ mode = 4 => s # <<>>
  \* exactly one report, which says what happened
  /\ s # <<>> =>
       /\ SubSeq(s, 1, 3) = (IF enc = 2 THEN <<27, 91, 60>> ELSE <<27, 91, 77>>)
       /\ enc = 0 => Len(s) = 6
       /\ d[1] \div 4 = e.mods \div 4
       /\ e.btn # 3 => d[2] = e.press
       /\ (e.press \/ enc = 2) => d[1] % 4 = e.btn
       /\ d[3] = (IF enc = 0 THEN Clamp(e.x, 1, 223) ELSE e.x)
       /\ d[4] = (IF enc = 0 THEN Clamp(e.y, 1, 223) ELSE e.y)
=============================================================================

----------------------------- MODULE MouseEnum -----------------------------
(***************************************************************************)
(* Mouse tracking as a transition system, enumerated: the application      *)
(* selects a mode and an encoding (Select), the user then makes every      *)
(* event at a place (Event).  Each step is checked against MouseInv and    *)
(* written out for the harness.  SHARD/NSHARD/SAMPLE as in KeyEnum.        *)
(***************************************************************************)
EXTENDS Mouse, Out, Json, TLC

Env(n, dflt) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE dflt
Shard == atoi(Env("SHARD", "0"))
NShard == atoi(Env("NSHARD", "1"))
Sample == atoi(Env("SAMPLE", "1"))
Seed == atoi(Env("SEED", "0"))
OutFile == Env("OUT", "")

Edge == <<1, 2, 3, 9, 10, 80, 93, 94, 95, 96, 97, 98, 99, 100, 126, 127, 128, 129, 132, 159, 160, 161, 190, 191, 192, 221, 222, 223, 224, 225, 226,
          254, 255, 256, 257, 511, 512, 999, 1000, 2014, 2015, 2016, 2017, 4096, 9999, 32768>>
Below == << <<0, 1>>, <<1, 0>>, <<-1, 5>>, <<7, -200>>, <<0, 300>>, <<224, 0>> >>     \* only X10 clamps
NE == Len(Edge)
\* places: every pair on the diagonal, and every edge against five others
Places == [ i \in 1..6 * NE |-> LET a == (i - 1) \div 6  b == (i - 1) % 6 IN <<Edge[a + 1], Edge[((a + b * b * 5 + b) % NE) + 1]>> ]
Place(i, enc) == IF i <= Len(Places) THEN Places[i] ELSE IF enc = 0 THEN Below[i - Len(Places)] ELSE <<i, 2 * i>>
NPlace == Len(Places) + Len(Below)

VARIABLES sel, at, reports
vars == <<sel, at, reports>>
Sel(c) == [mode |-> c \div 3, enc |-> c % 3]

Ev(k, p) == [btn |-> k % 4, press |-> (k \div 4) % 2 = 0, mods |-> (k \div 8) * 4, x |-> p[1], y |-> p[2]]
Mine(c, i) == LET p == c * NPlace + i IN p % NShard = Shard /\ ((p \div NShard) + Seed) % Sample = 0
RECURSIVE NextMine(_, _)
NextMine(c, i) == IF i > NPlace THEN i ELSE IF Mine(c, i) THEN i ELSE NextMine(c, i + 1)

Init == sel = 0 /\ at = 0 /\ reports = <<>>
Event ==
  /\ LET i == NextMine(sel, at + 1) s == Sel(sel) p == Place(i, s.enc) IN
     /\ i <= NPlace
     /\ at' = i
     /\ reports' = [ k \in 1..256 |-> Bytes(Ev(k - 1, p), s.mode, s.enc) ]
     /\ IF OutFile = "" THEN TRUE ELSE AppendLine(ToJson([mode |-> s.mode, enc |-> s.enc, x |-> p[1], y |-> p[2], r |-> reports']), OutFile)
  /\ UNCHANGED sel
Select ==
  /\ NextMine(sel, at + 1) > NPlace /\ sel < 14
  /\ sel' = sel + 1 /\ at' = 0 /\ reports' = <<>>
Spec == Init /\ [][Event \/ Select]_vars
Where == <<sel, at>>

C13 == reports # <<>> => \A k \in 1..256 : MouseInv(Ev(k - 1, Place(at, Sel(sel).enc)), Sel(sel).mode, Sel(sel).enc, reports[k])
Failing == [sel |-> Sel(sel), at |-> at, bad |-> IF reports = <<>> THEN {} ELSE
   { <<Ev(k - 1, Place(at, Sel(sel).enc)), reports[k]>> : k \in { j \in 1..256 : ~MouseInv(Ev(j - 1, Place(at, Sel(sel).enc)), Sel(sel).mode, Sel(sel).enc, reports[j]) } }]
=============================================================================

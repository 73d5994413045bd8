------------------------------ MODULE KeyEnum ------------------------------
(***************************************************************************)
(* The keyboard as a transition system, enumerated.  The application       *)
(* selects a configuration (Configure); the user then presses, repeats and *)
(* releases every key of a row with every modifier mask (Type).  Each Type *)
(* step is checked against KeyInv and written out as one line, which the   *)
(* harness replays through the escape sequences that select the            *)
(* configuration and SendKey.                                              *)
(*                                                                         *)
(* Environment: SHARD/NSHARD share out the points; SAMPLE keeps one of n;  *)
(* SET is "fn" (functional keys, all masks), "alt" (functional keys with   *)
(* alternates and text) or "rune" (text keys).                             *)
(***************************************************************************)
EXTENDS Keys, Out, Json

Env(n, dflt) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE dflt
Num(s) == atoi(s)
Set == Env("SET", "fn")
Shard == Num(Env("SHARD", "0"))
NShard == Num(Env("NSHARD", "1"))
Sample == Num(Env("SAMPLE", "1"))
Seed == Num(Env("SEED", "0"))
OutFile == Env("OUT", "")

AllMods == [ i \in 1..256 |-> i - 1 ]
FewMods == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 32, 33, 63, 64, 65, 68, 69, 128, 129, 130, 132, 192, 193, 196, 255>>

\* configuration number -> the modes the application selected
Config(c) == IF c < 6 THEN [f |-> 0, mok |-> c % 3, app |-> c >= 3] ELSE [f |-> c - 5, mok |-> 0, app |-> FALSE]
NConfig == 37

Row(c, r, sh, ba, tx, ms) == [code |-> c, rune |-> r, shifted |-> sh, base |-> ba, text |-> tx, mods |-> ms]

FnRows == [ i \in 1..111 |-> Row(i, 0, 0, 0, <<>>, AllMods) ]
AltCodes == <<1, 6, 7, 10, 11, 12, 13, 14, 15, 17, 18, 26, 27, 49, 50, 53, 55, 56, 59, 66, 71, 72, 74, 83, 84, 85, 97, 98, 104, 111>>
AltRows == [ i \in 1..3 * Len(AltCodes) |->
   LET c == AltCodes[(i - 1) \div 3 + 1] v == (i - 1) % 3
   IN IF v = 0 THEN Row(c, 0, 65, 0, <<>>, FewMods) ELSE IF v = 1 THEN Row(c, 0, 66, 99, <<9, 233>>, FewMods) ELSE Row(c, 120, 0, 99, <<65, 8364, 128512>>, FewMods) ]

Others == <<128, 160, 161, 181, 192, 201, 214, 215, 222, 223, 224, 233, 246, 247, 254, 255, 256, 257, 304, 305, 328, 376, 383, 452, 453, 454,
            931, 937, 945, 962, 963, 969, 1044, 1046, 1076, 1078, 1081, 1377, 1329, 1488, 1569, 2309, 3585, 7840, 7841, 8364, 8490, 12354, 20013, 44032,
            57344, 57399, 63743, 65279, 65313, 65345, 65533, 65535, 65536, 66560, 66600, 127752, 128512, 131072, 917760, 1114111>>
Runes == [ i \in 1..128 |-> i - 1 ] \o Others
NVar == 6
Variant(r, v) ==
  LET sh == IF Upper(r) # r THEN Upper(r) ELSE IF r \in 49..57 THEN r - 16 ELSE 43
      ms == IF r \in {97, 65, 49, 32, 91, 233, 8364} THEN AllMods ELSE FewMods
  IN CASE v = 0 -> Row(0, r, 0, 0, <<>>, ms)
       [] v = 1 -> Row(0, r, sh, 0, <<>>, FewMods)
       [] v = 2 -> Row(0, r, 0, 113, <<>>, FewMods)
       [] v = 3 -> Row(0, r, sh, 1092, <<>>, FewMods)
       [] v = 4 -> Row(0, r, sh, 0, <<r, 768>>, FewMods)
       [] v = 5 -> Row(0, r, 0, 99, <<27, 8364, 127, 133, 128512>>, FewMods)
RuneRows == [ i \in 1..NVar * Len(Runes) |-> Variant(Runes[(i - 1) \div NVar + 1], (i - 1) % NVar) ]

Rows == CASE Set = "fn" -> FnRows [] Set = "alt" -> AltRows [] Set = "rune" -> RuneRows [] OTHER -> <<>>

VARIABLES rows, cfg, row, enc
vars == <<rows, cfg, row, enc>>

K == Config(cfg)
Event(r, m, ev) == [code |-> r.code, rune |-> r.rune, mod |-> m, ev |-> ev, shifted |-> r.shifted, base |-> r.base, text |-> r.text]
EncRow(r, k) == [ ev \in 1..3 |-> [ i \in 1..Len(r.mods) |-> Enc(Event(r, r.mods[i], ev), k) ] ]

Mine(c, r) == LET p == c * Len(rows) + r IN p % NShard = Shard /\ ((p \div NShard) + Seed) % Sample = 0
RECURSIVE NextMine(_, _)
NextMine(c, r) == IF r > Len(rows) THEN r ELSE IF Mine(c, r) THEN r ELSE NextMine(c, r + 1)

Emit(k, r, x) ==
  IF OutFile = "" THEN TRUE
  ELSE AppendLine(ToJson([f |-> k.f, mok |-> k.mok, app |-> IF k.app THEN 1 ELSE 0, code |-> r.code, rune |-> r.rune, shifted |-> r.shifted,
                          base |-> r.base, text |-> r.text, mods |-> IF Len(r.mods) = 256 THEN <<>> ELSE r.mods, enc |-> x]), OutFile)

Init == rows = Rows /\ cfg = 0 /\ row = 0 /\ enc = <<>>
Type ==
  /\ LET n == NextMine(cfg, row + 1) IN
     /\ n <= Len(rows)
     /\ row' = n
     /\ enc' = EncRow(rows[n], K)
     /\ Emit(K, rows[n], enc')
  /\ UNCHANGED <<rows, cfg>>
Configure ==
  /\ NextMine(cfg, row + 1) > Len(rows)
  /\ cfg < NConfig - 1
  /\ cfg' = cfg + 1 /\ row' = 0 /\ enc' = <<>>
  /\ UNCHANGED rows
Spec == Init /\ [][Type \/ Configure]_vars

Where == <<cfg, row>>

C12 == enc # <<>> => \A ev \in 1..3 : \A i \in 1..Len(rows[row].mods) :
         KeyInv(Event(rows[row], rows[row].mods[i], ev), K, enc[ev][i])
\* what a counterexample shows
Failing == IF enc = <<>> THEN [cfg |-> cfg, row |-> row, bad |-> {}]
  ELSE [cfg |-> K, row |-> [rows[row] EXCEPT !.mods = <<>>],
        bad |-> { <<ev, rows[row].mods[i], enc[ev][i]>> : <<ev, i>> \in { q \in (1..3) \X (1..Len(rows[row].mods)) :
                   ~KeyInv(Event(rows[row], rows[row].mods[q[2]], q[1]), K, enc[q[1]][q[2]]) } }]
=============================================================================

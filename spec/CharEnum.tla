------------------------------ MODULE CharEnum ------------------------------
(***************************************************************************)
(* Every code point, in blocks of 64: a program that clears a row and      *)
(* prints the block on it.  What the row must hold is computed from        *)
(* TermText by the printing rule of property C03; CharInv states what is   *)
(* required of it without the width table.  One line per block is written  *)
(* for the harness.  SHARD/NSHARD/SAMPLE as in KeyEnum.                    *)
(***************************************************************************)
EXTENDS TermText, Out, Json, TLC

Env(n, dflt) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE dflt
Shard == atoi(Env("SHARD", "0"))
NShard == atoi(Env("NSHARD", "1"))
Sample == atoi(Env("SAMPLE", "1"))
Seed == atoi(Env("SEED", "0"))
OutFile == Env("OUT", "")

MaxCP == 1114111
NBlock == (MaxCP + 1) \div 64
Surrogate(b) == b \in 864..895
Mine(b) == ~Surrogate(b) /\ b % NShard = Shard /\ ((b \div NShard) + Seed) % Sample = 0
RECURSIVE NextMine(_)
NextMine(b) == IF b >= NBlock THEN NBlock ELSE IF Mine(b) THEN b ELSE NextMine(b + 1)

\* U+0000 to U+001F and U+007F are controls; every other scalar value prints
Block(b) == SelectSeq([ i \in 1..64 |-> 64 * b + i - 1 ], LAMBDA c : c >= 32 /\ c # 127)

VARIABLES blk,  \* the block printed last; -1 none
          cps,  \* its code points
          cols, \* the column each was printed at
          cx    \* the cursor's column
vars == <<blk, cps, cols, cx>>

RECURSIVE Columns(_, _, _)
Columns(s, i, acc) == IF i > Len(s) THEN acc ELSE Columns(s, i + 1, Append(acc, acc[i] + RuneWidth(s[i])))

Init == blk = -1 /\ cps = <<>> /\ cols = <<>> /\ cx = 0
PrintBlock ==
  LET b == NextMine(blk + 1) s == Block(b) p == Columns(s, 1, <<0>>) IN
  /\ b < NBlock
  /\ blk' = b /\ cps' = s /\ cols' = SubSeq(p, 1, Len(s)) /\ cx' = p[Len(s) + 1]
  /\ IF OutFile = "" \/ s = <<>> THEN TRUE ELSE AppendLine(ToJson([b |-> b, cps |-> s, cols |-> cols', cx |-> cx']), OutFile)
Spec == Init /\ [][PrintBlock]_vars
Where == blk

\* the cells of the row: a code point, or the rest of the one before it
WidthAt(i) == (IF i = Len(cps) THEN cx ELSE cols[i + 1]) - cols[i]
CharInv ==
  cps # <<>> =>
    /\ cols[1] = 0                                                      \* at the cursor,
    /\ \A i \in 1..Len(cps) : WidthAt(i) \in 1..4                       \* advancing by at least a cell each
    /\ \A i \in 1..(IF blk > 4096 THEN 0 ELSE Len(cps)) : LET c == cps[i] w == WidthAt(i) IN
         /\ c < 4352 => w = 1                                           \* Latin, Greek, Cyrillic, ...
         /\ c \in 13312..19903 \/ c \in 19968..40959 \/ c \in 131072..173791 => w = 2   \* Han
         /\ c \in 44032..55203 \/ c \in 12354..12435 \/ c \in 12449..12538 => w = 2      \* Hangul, Kana
         /\ c \in 65281..65374 => w = 2                                 \* full-width
         /\ c \in 65377..65439 => w = 1                                 \* half-width
         /\ c \in 57344..63743 => w = 1                                 \* private use
         /\ c = Replacement => w = 1
    /\ blk > 4096 => cx = Len(cps)                                      \* nothing beyond plane 3 is wide
=============================================================================

----------------------------- MODULE TermStyle -----------------------------
(* Colours, text modes and the SGR ("select graphic rendition") fold.      *)
(*                                                                         *)
(* A colour is <<kind, value>>:                                            *)
(*   0 default | 1 indexed 0..255 | 2 bright 0..7 | 3 RGB 0..2^24-1        *)
(* A mode is named by the SGR code that switches it on; a style is a       *)
(* record [fg, bg, m] where m is the set of modes that are on.             *)
EXTENDS Integers, Sequences, FiniteSets

ColDefault == <<0, 0>>
ModeCodes  == {1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 51, 52, 53}
StyleDefault == [fg |-> ColDefault, bg |-> ColDefault, m |-> {}]

IsColour(c) ==
  \/ c = ColDefault
  \/ c[1] = 1 /\ c[2] \in 0..255
  \/ c[1] = 2 /\ c[2] \in 0..7
  \/ c[1] = 3 /\ c[2] \in 0..16777215

IsStyle(s) == IsColour(s.fg) /\ IsColour(s.bg) /\ s.m \subseteq ModeCodes

Byte(v) == v % 256           \* "& 0xff" of a non-negative parameter

\* modes that an SGR "off" code clears
Clears(p) == CASE p = 22 -> {1, 2}
               [] p = 23 -> {3}
               [] p = 24 -> {4, 21}
               [] p = 25 -> {5, 6}
               [] p = 27 -> {7}
               [] p = 28 -> {8}
               [] p = 29 -> {9}
               [] p = 54 -> {51, 52}
               [] p = 55 -> {53}
               [] OTHER  -> {}

\* one SGR parameter that is complete in itself
SgrOne(st, p) ==
  CASE p = 0                -> StyleDefault
    [] p \in ModeCodes      -> [st EXCEPT !.m = @ \cup {p}]
    [] Clears(p) # {}       -> [st EXCEPT !.m = @ \ Clears(p)]
    [] p \in 30..37         -> [st EXCEPT !.fg = <<1, p - 30>>]
    [] p = 39               -> [st EXCEPT !.fg = ColDefault]
    [] p \in 40..47         -> [st EXCEPT !.bg = <<1, p - 40>>]
    [] p = 49               -> [st EXCEPT !.bg = ColDefault]
    [] p \in 90..97         -> [st EXCEPT !.fg = <<2, p - 90>>]
    [] p \in 100..107       -> [st EXCEPT !.bg = <<2, p - 100>>]
    [] OTHER                -> st

SetExt(st, p, c) == IF p = 38 THEN [st EXCEPT !.fg = c] ELSE [st EXCEPT !.bg = c]

(* The fold.  Extended colours 38/48 consume their arguments: 5;n needs    *)
(* two more parameters, 2;r;g;b four.  A truncated or unknown extended     *)
(* form is skipped as a single parameter and the fold goes on behind it.   *)
RECURSIVE SgrFold(_, _, _)
SgrFold(st, ps, i) ==
  IF i > Len(ps) THEN st
  ELSE LET p == ps[i] IN
       IF p = 38 \/ p = 48
       THEN IF i + 2 <= Len(ps) /\ ps[i+1] = 5
            THEN SgrFold(SetExt(st, p, <<1, Byte(ps[i+2])>>), ps, i + 3)
            ELSE IF i + 4 <= Len(ps) /\ ps[i+1] = 2
            THEN SgrFold(SetExt(st, p, <<3, Byte(ps[i+2]) * 65536 + Byte(ps[i+3]) * 256 + Byte(ps[i+4])>>),
                         ps, i + 5)
            ELSE SgrFold(st, ps, i + 1)
       ELSE SgrFold(SgrOne(st, p), ps, i + 1)

Sgr(st, ps) == SgrFold(st, IF ps = <<>> THEN <<0>> ELSE ps, 1)

(* Serialisation: one parameter list that produces style s from any style. *)
ColParams(c, base) ==
  CASE c[1] = 0 -> <<>>
    [] c[1] = 1 -> IF c[2] < 8 THEN <<base + c[2]>> ELSE <<base + 8, 5, c[2]>>
    [] c[1] = 2 -> <<base + 60 + c[2]>>
    [] c[1] = 3 -> <<base + 8, 2, c[2] \div 65536, (c[2] \div 256) % 256, c[2] % 256>>

RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(S) == IF S = {} THEN <<>>
                  ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
                       IN <<x>> \o SetToSeqAsc(S \ {x})

StyleParams(s) == <<0>> \o SetToSeqAsc(s.m) \o ColParams(s.fg, 30) \o ColParams(s.bg, 40)
=============================================================================

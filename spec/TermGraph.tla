----------------------------- MODULE TermGraph -----------------------------
(* Extended grapheme clusters: boundaries and widths.                      *)
EXTENDS Integers, Sequences, TermText

\* is there a boundary between cluster gc (non-empty) and code point c?
BreakBetween(gc, c) ==
  LET a == GClass(gc[Len(gc)])  b == GClass(c)
      n == Len(gc)
      \* GB11: ExtPict Extend* ZWJ x ExtPict
      pict == a = "ZWJ" /\ b = "EP" /\
              \E i \in 1..n-1 : GClass(gc[i]) = "EP" /\ \A j \in i+1..n-1 : GClass(gc[j]) = "EXT"
  IN IF a = "CTL" \/ b = "CTL" THEN TRUE
     ELSE IF a = "L" /\ b \in {"L", "V", "LV", "LVT"} THEN FALSE
     ELSE IF a \in {"LV", "V"} /\ b \in {"V", "T"} THEN FALSE
     ELSE IF a \in {"LVT", "T"} /\ b = "T" THEN FALSE
     ELSE IF b \in {"EXT", "ZWJ", "SM"} THEN FALSE
     ELSE IF a = "PRE" THEN FALSE
     ELSE IF pict THEN FALSE
     ELSE IF a = "RI" /\ b = "RI"
          THEN (Len(SelectSeq(gc, LAMBDA x : GClass(x) = "RI")) % 2) = 0
     ELSE TRUE

RECURSIVE OneClusterFrom(_, _)
OneClusterFrom(cps, i) == IF i > Len(cps) THEN TRUE
  ELSE ~BreakBetween(SubSeq(cps, 1, i - 1), cps[i]) /\ OneClusterFrom(cps, i + 1)
OneCluster(cps) == cps # <<>> /\ OneClusterFrom(cps, 2)

\* made of extenders only (it has no character of its own to occupy a cell)
IsMark(c) == c \in {769, 776, 8413, 65039, 65038}
IsZWJ(cps) == \A i \in 1..Len(cps) : cps[i] = 8205
ExtendOnly(cps) == IsZWJ(cps) \/ \A i \in 1..Len(cps) : IsMark(cps[i])

(* Width of a cluster: that of its first code point; further code points   *)
(* add theirs unless the first is a pictograph (where a variation selector *)
(* chooses between 1 and 2), a regional indicator or a leading consonant.  *)
RawWidth(c) == IF GClass(c) \in {"CTL", "EXT", "ZWJ"} THEN 0 ELSE RuneWidth(c)
RECURSIVE AddWidths(_, _)
AddWidths(cps, i) == IF i > Len(cps) THEN 0 ELSE RawWidth(cps[i]) + AddWidths(cps, i + 1)
RECURSIVE PictWidth(_, _, _)
PictWidth(cps, i, w) == IF i > Len(cps) THEN w
                        ELSE PictWidth(cps, i + 1, IF cps[i] = 65039 THEN 2 ELSE IF cps[i] = 65038 THEN 1 ELSE w)
ClusterWidth(cps) ==
  LET k == GClass(cps[1])
      w == CASE k = "EP" -> PictWidth(cps, 2, RawWidth(cps[1]))
             [] k \in {"RI", "L"} -> RawWidth(cps[1])
             [] OTHER -> AddWidths(cps, 1)
  IN IF w < 1 THEN 1 ELSE w
=============================================================================

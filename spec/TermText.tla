------------------------------ MODULE TermText ------------------------------
(* Code points, their cell widths, and the UTF-8 decoder as an automaton.  *)
EXTENDS Integers, Sequences, FiniteSets

Replacement == 65533     \* U+FFFD, stands for one byte that is not valid UTF-8

(* Widths, in cells: the ranges of two cells, in order.  The harness       *)
(* compares this table with the terminal's width library for every code    *)
(* point.  Code points of width 0 take a cell of their own in rune mode.   *)
Wide2 == <<
  <<4352, 4447>>, <<8986, 8987>>, <<9001, 9002>>, <<9193, 9196>>, <<9200, 9200>>, <<9203, 9203>>,
  <<9725, 9726>>, <<9748, 9749>>, <<9800, 9811>>, <<9855, 9855>>, <<9875, 9875>>, <<9889, 9889>>,
  <<9898, 9899>>, <<9917, 9918>>, <<9924, 9925>>, <<9934, 9934>>, <<9940, 9940>>, <<9962, 9962>>,
  <<9970, 9971>>, <<9973, 9973>>, <<9978, 9978>>, <<9981, 9981>>, <<9989, 9989>>, <<9994, 9995>>,
  <<10024, 10024>>, <<10060, 10060>>, <<10062, 10062>>, <<10067, 10069>>, <<10071, 10071>>,
  <<10133, 10135>>, <<10160, 10160>>, <<10175, 10175>>, <<11035, 11036>>, <<11088, 11088>>,
  <<11093, 11093>>, <<11904, 11929>>, <<11931, 12019>>, <<12032, 12245>>, <<12272, 12283>>,
  <<12288, 12329>>, <<12337, 12348>>, <<12350, 12350>>, <<12353, 12438>>, <<12443, 12543>>,
  <<12549, 12591>>, <<12593, 12686>>, <<12688, 12771>>, <<12784, 12830>>, <<12832, 12871>>,
  <<12880, 12950>>, <<12952, 12952>>, <<12954, 19903>>, <<19968, 42124>>, <<42128, 42182>>,
  <<43360, 43388>>, <<44032, 55203>>, <<63744, 64255>>, <<65040, 65049>>, <<65072, 65106>>,
  <<65108, 65126>>, <<65128, 65131>>, <<65281, 65376>>, <<65504, 65510>>, <<94176, 94179>>,
  <<94192, 94193>>, <<94208, 100343>>, <<100352, 101589>>, <<101632, 101640>>,
  <<110576, 110579>>, <<110581, 110587>>, <<110589, 110590>>, <<110592, 110882>>,
  <<110898, 110898>>, <<110928, 110930>>, <<110933, 110933>>, <<110948, 110951>>,
  <<110960, 111355>>, <<126980, 126980>>, <<127183, 127183>>, <<127374, 127374>>,
  <<127377, 127386>>, <<127462, 127489>>, <<127504, 127542>>, <<127544, 127547>>,
  <<127552, 127560>>, <<127568, 127569>>, <<127744, 127776>>, <<127789, 127797>>,
  <<127799, 127868>>, <<127870, 127891>>, <<127904, 127946>>, <<127951, 127955>>,
  <<127968, 127984>>, <<127988, 127988>>, <<127992, 127994>>, <<128000, 128062>>,
  <<128064, 128064>>, <<128066, 128252>>, <<128255, 128317>>, <<128331, 128334>>,
  <<128336, 128359>>, <<128378, 128378>>, <<128405, 128406>>, <<128420, 128420>>,
  <<128507, 128591>>, <<128640, 128709>>, <<128716, 128716>>, <<128720, 128722>>,
  <<128725, 128727>>, <<128732, 128735>>, <<128747, 128748>>, <<128756, 128764>>,
  <<128992, 129003>>, <<129008, 129008>>, <<129292, 129338>>, <<129340, 129349>>,
  <<129351, 129535>>, <<129648, 129660>>, <<129664, 129672>>, <<129680, 129725>>,
  <<129727, 129733>>, <<129742, 129755>>, <<129760, 129768>>, <<129776, 129784>>,
  <<131072, 196605>>, <<196608, 262141>> >>
RECURSIVE InWide2(_, _, _)
InWide2(c, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET m == (lo + hi) \div 2 IN
       IF c < Wide2[m][1] THEN InWide2(c, lo, m - 1)
       ELSE IF c > Wide2[m][2] THEN InWide2(c, m + 1, hi) ELSE TRUE
IsWide2(c) == InWide2(c, 1, Len(Wide2))
IsEmoji(c) == c \in 128512..128591 (* emoticons *) \/ c \in {128057, 128105, 128640}
IsRI(c)    == c \in 127462..127487

RuneWidth(c) == IF c < 4352 \/ c > 262141 THEN 1
                ELSE IF c = 11834 THEN 3
                ELSE IF c = 11835 THEN 4
                ELSE IF IsWide2(c) THEN 2 ELSE 1

--------------------------------------------------------------------------
(* UTF-8.  `pend' is an incomplete but so far valid prefix (<<>> if none). *)
IsLead(b) == b \in 194..244
NeedOf(b) == IF b <= 223 THEN 2 ELSE IF b <= 239 THEN 3 ELSE 4

\* second byte ranges exclude over-long forms, surrogates and > U+10FFFF
SecondOK(l, b) == CASE l = 224 -> b \in 160..191
                    [] l = 237 -> b \in 128..159
                    [] l = 240 -> b \in 144..191
                    [] l = 244 -> b \in 128..143
                    [] OTHER   -> b \in 128..191

Extends8(pend, b) == IF Len(pend) = 1 THEN SecondOK(pend[1], b) ELSE b \in 128..191

Decode8(s) == CASE Len(s) = 1 -> s[1]
                [] Len(s) = 2 -> (s[1] - 192) * 64 + (s[2] - 128)
                [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + (s[3] - 128)
                [] Len(s) = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + (s[4] - 128)

Encode8(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* pending prefix after byte b inside a string payload (no decoding needed)
Track8(pend, b) ==
  IF pend # <<>> /\ Extends8(pend, b)
  THEN IF Len(pend) + 1 = NeedOf(pend[1]) THEN <<>> ELSE Append(pend, b)
  ELSE IF IsLead(b) THEN <<b>> ELSE <<>>

--------------------------------------------------------------------------
(* Extended grapheme clusters (UAX #29), on the classes of the alphabet.   *)
GClass(c) ==
  CASE c \in {8205}                      -> "ZWJ"
    [] c \in {769, 776, 8413, 127997, 65039, 65038} -> "EXT"  \* combining acute, diaeresis, enclosing circle, skin tone, VS16, VS15
    [] c \in {2307}                      -> "SM"               \* Devanagari visarga
    [] c \in {1536}                      -> "PRE"              \* Arabic number sign
    [] IsRI(c)                           -> "RI"
    [] IsEmoji(c) \/ c = 10084 \/ c = 169 \/ c = 174 -> "EP"
    [] c \in 4352..4447                  -> "L"
    [] c \in 4448..4519                  -> "V"
    [] c \in 4520..4607                  -> "T"
    [] c \in 44032..55203                -> IF (c - 44032) % 28 = 0 THEN "LV" ELSE "LVT"
    [] c \in (128..159) \cup {8203, 173}  -> "CTL"
    [] OTHER                             -> "XX"
=============================================================================

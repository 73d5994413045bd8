-------------------------------- MODULE Enum --------------------------------
(* Systematic behaviours: every item of a finite family of short token     *)
(* sequences, in order, on a set of screen sizes.  An item first brings    *)
(* the terminal into a known state where that matters.  Items are grouped  *)
(* in blocks; one block is one behaviour on one terminal.                  *)
(* IOEnv: SET the family, SHARD/NSHARD, SAMPLE (keep one block in SAMPLE), *)
(* SEED, OUT, BUF, MODE.                                                   *)
EXTENDS TermJson, TermProps, SequencesExt

VARIABLES plan, blk, cur, item, pend, t, prev, tok, log
vars == <<plan, blk, cur, item, pend, t, prev, tok, log>>

Set     == IOEnv.SET
OutFile == IOEnv.OUT
Buf     == IOEnv.BUF
Mode    == IOEnv.MODE
Shard   == atoi(IOEnv.SHARD)
NShard  == atoi(IOEnv.NSHARD)
Sample  == atoi(IOEnv.SAMPLE)
Seed    == atoi(IOEnv.SEED)
PerBlock == 24

T(k, b) == [k |-> k, b |-> b, z |-> <<>>]
Rsz(w, h) == [k |-> "resize", b |-> <<>>, z |-> <<w, h>>]
Cat(ss) == FlattenSeq(ss)
Utf8(cps) == Cat([i \in 1..Len(cps) |-> Encode8(cps[i])])
CSI(f) == <<27, 91>> \o f
C1(n, f) == CSI(Digits(n) \o <<f>>)
C2(a, b, f) == CSI(Digits(a) \o <<59>> \o Digits(b) \o <<f>>)
Goto(x, y) == C2(y, x, 72)
Tx(cps) == T("text", Utf8(cps))

\* mixed radix: digit j (1-based) of i for radices rs
RECURSIVE Dig(_, _, _)
Dig(i, rs, j) == IF j = 1 THEN i % rs[1] ELSE Dig(i \div rs[1], Tail(rs), j - 1)
Prod(rs) == FoldLeft(LAMBDA a, x : a * x, 1, rs)

--------------------------------------------------------------------------
(* Screen contents: a pattern is a sequence of code points repeated over   *)
(* the columns; what does not fit at the right edge is left blank.         *)
Patterns == << <<97, 98, 99, 100, 101, 102>>, <<19990>>, <<97, 19990>>, <<97, 11834, 98>>, <<19990, 97, 98>>, <<11835, 30028>>, <<32>> >>
RECURSIVE FillFrom(_, _, _, _)
FillFrom(p, w, x, j) ==
  IF x > w THEN <<>>
  ELSE LET c == p[((j - 1) % Len(p)) + 1]  cw == RuneWidth(c) IN
       IF x + cw - 1 > w THEN <<>> ELSE <<c>> \o FillFrom(p, w, x + cw, j + 1)
RowTag(y) == CSI(<<48, 59>> \o Digits(30 + y) \o <<109>>)     \* each row its own colour
Paint(w, h, p, sty) ==
  CSI(<<63, 55, 108>>) \o CSI(<<114>>) \o
  Cat([y \in 1..h |-> Goto(1, y) \o (IF sty THEN RowTag(y) ELSE CSI(<<109>>)) \o CSI(<<50, 75>>) \o Utf8(FillFrom(p, w, 1, y))])

\* known state: rows painted, region a..b, wrap, rendition, cursor
Ready(w, h, p, a, b, wrap, x, y) ==
  T("setup", Paint(w, h, p, TRUE) \o C2(a, b, 114) \o CSI(<<63, 55, IF wrap THEN 104 ELSE 108>>)
             \o CSI(<<48, 59, 52, 53, 59, 51, 109>>) \o Goto(x, y))

Regions(h) == SetToSeq({<<a, b>> \in (1..h) \X (1..h) : a <= b})

--------------------------------------------------------------------------
(* The families.  Sizes(s), N(w, h) the number of items, At(w, h, i) item  *)
(* number i (0-based): a sequence of tokens.                               *)
SizesUpTo(w, h) == SetToSeq((1..w) \X (1..h))

\* --- cursor motions: position x region x motion
Counts(m) == << <<>>, <<48>>, <<49>>, <<50>>, Digits(m), Digits(m + 1), Digits(16777215) >>
Motions(w, h) ==
  << T("bs", <<8>>), T("bs", <<127>>), T("ht", <<9>>), T("lf", <<10>>), T("ff", <<12>>), T("cr", <<13>>), T("ind", <<27, 68>>), T("ri", <<27, 77>>),
     T("c0", <<11>>), T("rc", CSI(<<117>>)), T("cup", CSI(<<72>>)), T("cup", CSI(<<59, 72>>)), T("cup", CSI(<<59, 50, 72>>)), T("cup", CSI(<<50, 59, 102>>)),
     T("cup", C2(h + 1, w + 1, 72)), T("cup", C2(0, 0, 102)) >>
  \o Cat([i \in 1..7 |-> <<T("cuu", CSI(Counts(h)[i] \o <<65>>)), T("cud", CSI(Counts(h)[i] \o <<66>>)),
                           T("cuf", CSI(Counts(w)[i] \o <<67>>)), T("cub", CSI(Counts(w)[i] \o <<68>>)),
                           T("cha", CSI(Counts(w)[i] \o <<71>>)), T("vpa", CSI(Counts(h)[i] \o <<100>>))>>])
CursorRad(w, h) == <<w, h, Len(Regions(h)), Len(Motions(w, h)), 2>>
CursorAt(w, h, i) ==
  LET r == CursorRad(w, h)  reg == Regions(h)[Dig(i, r, 3) + 1]  m == Motions(w, h)[Dig(i, r, 4) + 1]
      x == Dig(i, r, 1) + 1  y == Dig(i, r, 2) + 1 IN
  <<Ready(w, h, Patterns[1 + Dig(i, r, 5) * 2], reg[1], reg[2], FALSE, x, y)>> \o
  (IF m.k = "rc" THEN <<T("sc", CSI(<<115>>)), T("goto", Goto(w + 1 - x, h + 1 - y)), m>> ELSE <<m, m>>)

\* --- erase and delete: position x contents x function x count
EraseOps(w) ==
  << T("ed", CSI(<<74>>)), T("ed", C1(0, 74)), T("ed", C1(1, 74)), T("ed", C1(2, 74)), T("ed", C1(3, 74)),
     T("el", CSI(<<75>>)), T("el", C1(0, 75)), T("el", C1(1, 75)), T("el", C1(2, 75)), T("el", C1(3, 75)),
     T("ech", CSI(<<88>>)), T("dch", CSI(<<80>>)), T("ech", C1(16777215, 88)), T("dch", C1(16777215, 80)) >>
  \o Cat([n \in 1..w + 2 |-> <<T("ech", C1(n - 1, 88)), T("dch", C1(n - 1, 80))>>])
EraseRad(w, h) == <<w, h, Len(EraseOps(w)), Len(Patterns) - 1>>
EraseAt(w, h, i) ==
  LET r == EraseRad(w, h) IN
  <<Ready(w, h, Patterns[Dig(i, r, 4) + 1], 1, h, FALSE, Dig(i, r, 1) + 1, Dig(i, r, 2) + 1), EraseOps(w)[Dig(i, r, 3) + 1]>>

\* --- scrolling: row x region x function x count
ScrollOps(h) ==
  << T("lf", <<10>>), T("ff", <<12>>), T("ind", <<27, 68>>), T("ri", <<27, 77>>), T("text", <<97, 98, 99, 100>>), T("text", Utf8(<<19990, 19990>>)) >>
  \o Cat([n \in 1..h + 2 |-> <<T("il", C1(n - 1, 76)), T("dl", C1(n - 1, 77)), T("su", C1(n - 1, 83)), T("sd", C1(n - 1, 84))>>])
  \o << T("il", CSI(<<76>>)), T("dl", CSI(<<77>>)), T("su", CSI(<<83>>)), T("sd", CSI(<<84>>)),
        T("il", C1(16777215, 76)), T("dl", C1(16777215, 77)), T("su", C1(16777215, 83)), T("sd", C1(16777215, 84)) >>
ScrollRad(w, h) == <<h, Len(Regions(h)), Len(ScrollOps(h)), 2, 2>>
ScrollAt(w, h, i) ==
  LET r == ScrollRad(w, h)  reg == Regions(h)[Dig(i, r, 2) + 1] IN
  <<Ready(w, h, Patterns[1 + 2 * Dig(i, r, 4)], reg[1], reg[2], TRUE, IF Dig(i, r, 5) = 0 THEN 1 ELSE w, Dig(i, r, 1) + 1), ScrollOps(h)[Dig(i, r, 3) + 1]>>

\* --- DECSTBM: all pairs, then what uses the region
MargArg(n) == IF n = 0 THEN <<>> ELSE Digits(n - 1)
MargRad(w, h) == <<h + 4, h + 4, Len(Regions(h)), 3>>
MargAt(w, h, i) ==
  LET r == MargRad(w, h)  reg == Regions(h)[Dig(i, r, 3) + 1] IN
  <<Ready(w, h, Patterns[1], reg[1], reg[2], FALSE, 1, 1 + (i % h)),
    T("stbm", CSI(MargArg(Dig(i, r, 1)) \o <<59>> \o MargArg(Dig(i, r, 2)) \o <<114>>)),
    << T("su", CSI(<<83>>)), T("il", CSI(<<76>>)), T("lf", <<10>>) >>[Dig(i, r, 4) + 1]>>

\* --- text at every position over every content
Words1 == << <<97>>, <<19990>>, <<11834>>, <<11835>>, <<97, 98>>, <<97, 19990>>, <<19990, 97>>, <<19990, 30028>>, <<32, 32>>, <<97, 98, 99, 100, 101, 102, 97, 98>>,
             <<97, 11834, 98>>, <<233, 8364, 128512>>, <<19990, 19990, 19990, 19990>> >>
TextRad(w, h) == <<w, h, 2, Len(Words1), Len(Patterns), 2>>
TextAt(w, h, i) ==
  LET r == TextRad(w, h)  full == Dig(i, r, 6) = 0 IN
  <<Ready(w, h, Patterns[Dig(i, r, 5) + 1], 1, IF full THEN h ELSE 1, Dig(i, r, 3) = 1, Dig(i, r, 1) + 1, Dig(i, r, 2) + 1), Tx(Words1[Dig(i, r, 4) + 1])>>

\* --- resizing from every state to every size, then input that would notice
After == << T("rc", CSI(<<117>>)), T("text", <<97, 98, 99>>), T("lf", <<10>>), T("ri", <<27, 77>>), T("su", CSI(<<83>>)), T("cup", C2(99, 99, 72)), T("el", C1(1, 75)), T("dch", CSI(<<80>>)) >>
ResizeRad(w, h) == <<6, 5, Len(Regions(h)), Len(After), 2, w, h>>
ResizeAt(w, h, i) ==
  LET r == ResizeRad(w, h)  reg == Regions(h)[Dig(i, r, 3) + 1]
      x == Dig(i, r, 6) + 1  y == Dig(i, r, 7) + 1 IN
  <<Rsz(w, h), Ready(w, h, Patterns[3 - 2 * Dig(i, r, 5)], reg[1], reg[2], i % 2 = 0, x, y), T("sc", CSI(<<115>>)), T("goto", Goto(w + 1 - x, h + 1 - y)),
    Rsz(Dig(i, r, 1) + 1, Dig(i, r, 2) + 1), After[Dig(i, r, 4) + 1]>>

\* --- SGR
AllOn == <<49,59,50,59,51,59,52,59,53,59,54,59,55,59,56,59,57,59,50,49,59,53,49,59,53,50,59,53,51,59,51,56,59,53,59,55,55,59,52,56,59,50,59,49,59,50,59,51>>
SgrList == [i \in 1..122 |-> i - 1]
SgrPairs == << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25, 27, 28, 29, 30, 37, 38, 39, 40, 47, 48, 49, 51, 52, 53, 54, 55, 90, 97, 100, 107, 10, 56 >>
Levels == << 0, 1, 7, 8, 127, 128, 255, 256, 511 >>
X == T("text", <<120>>)
SgrN == Len(SgrList) + 2 * 262 + Len(SgrPairs) * Len(SgrPairs) + 2 * 729 + 200
SgrAt(i) ==
  LET n1 == Len(SgrList)  n2 == n1 + 2 * 262  n3 == n2 + Len(SgrPairs) * Len(SgrPairs)  n4 == n3 + 2 * 729 IN
  IF i < n1 THEN <<T("sgr", CSI(AllOn \o <<109>>)), T("sgr", CSI(Digits(i) \o <<109>>)), X, T("sgr", CSI(<<109>>)), T("sgr", CSI(Digits(i) \o <<109>>)), X,
                   T("ech", CSI(<<50, 88>>))>>
  ELSE IF i < n2 THEN LET j == i - n1 IN <<T("sgr", CSI(Digits(IF j % 2 = 0 THEN 38 ELSE 48) \o <<59, 53, 59>> \o Digits(j \div 2) \o <<109>>)), X, T("cr", <<13>>)>>
  ELSE IF i < n3 THEN LET j == i - n2 IN
       <<T("sgr", CSI((IF j % 3 = 0 THEN AllOn ELSE <<48>>) \o <<59>> \o Digits(SgrPairs[(j % Len(SgrPairs)) + 1]) \o <<59>> \o Digits(SgrPairs[j \div Len(SgrPairs) + 1]) \o <<109>>)), X>>
  ELSE IF i < n4 THEN LET j == i - n3  k == j \div 2 IN
       <<T("sgr", CSI(Digits(IF j % 2 = 0 THEN 38 ELSE 48) \o <<59, 50, 59>> \o Digits(Levels[(k % 9) + 1]) \o <<59>> \o Digits(Levels[((k \div 9) % 9) + 1]) \o <<59>>
                      \o Digits(Levels[(k \div 81) + 1]) \o <<109>>)), X>>
  ELSE LET j == i - n4 IN    \* long parameter lists: the j-th mode code at the end of j others
       <<T("sgr", CSI(<<48>> \o Cat([m \in 1..(j % 40) |-> <<59>> \o Digits(SgrPairs[((m + j) % Len(SgrPairs)) + 1])]) \o <<59, 51, 56, 59, 53, 59>> \o Digits(j) \o <<109>>)), X>>

\* --- private modes
ModeNums == [i \in 1..2110 |-> i - 1]
ModeKnown == << 1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1034, 1049, 2004 >>
ModesN == 2 * 2110 + 2 * 15 * 15 * 2
ModesAt(i) ==
  IF i < 2 * 2110 THEN <<T("mode", CSI(<<63>> \o Digits(i \div 2) \o <<IF i % 2 = 0 THEN 104 ELSE 108>>))>>
  ELSE LET j == i - 2 * 2110  r == <<15, 15, 2, 2>> IN
       <<T("mode", CSI(<<63>> \o Digits(ModeKnown[Dig(j, r, 1) + 1]) \o <<59>> \o Digits(ModeKnown[Dig(j, r, 2) + 1]) \o <<IF Dig(j, r, 3) = 0 THEN 104 ELSE 108>>)),
         T("mode", CSI(<<63>> \o Digits(ModeKnown[Dig(j, r, 1) + 1]) \o <<IF Dig(j, r, 4) = 0 THEN 104 ELSE 108>>))>>

\* --- control sequence syntax
PreBytes == << <<>>, <<60>>, <<61>>, <<62>>, <<63>> >>
Args == << <<>>, <<49>>, <<50, 59, 51>>, <<52, 58, 51>>, <<49, 59, 50, 59, 51, 59, 52, 59, 53, 59, 54, 59, 55, 59, 56, 59, 57, 59, 49, 48, 59, 49, 49>> >>
Inters == [i \in 1..19 |-> IF i = 1 THEN <<>> ELSE IF i <= 17 THEN <<30 + i>> ELSE IF i = 18 THEN <<32, 47>> ELSE <<36, 33, 34>>]
CsiRad == <<63, Len(PreBytes), Len(Args), Len(Inters)>>
CsiAt(i) == LET r == CsiRad IN
  <<T("csi", CSI(PreBytes[Dig(i, r, 2) + 1] \o Args[Dig(i, r, 3) + 1] \o Inters[Dig(i, r, 4) + 1] \o <<64 + Dig(i, r, 1)>>)), T("text", <<97 + (i % 26)>>)>>
EscN == 79 + 16 * 79 + 20
EscAt(i) ==
  IF i < 79 THEN LET b == 48 + i IN IF b \in {80, 91, 93} THEN <<X>> ELSE <<T("esc", <<27, b>>), X>>
  ELSE IF i < 79 + 16 * 79 THEN LET j == i - 79 IN <<T("esc", <<27, 32 + (j % 16), 48 + (j \div 16)>>), X>>
  ELSE LET j == i - 79 - 16 * 79 IN <<T("esc", <<27>> \o [m \in 1..j + 1 |-> 32 + ((m + j) % 16)] \o <<66>>), X>>
Terms == << <<7>>, <<27, 92>>, <<156>> >>
OscN == 300 + 3 * 256 + 3 * 40 + 3 * 64 + 2 * 256 + 16 * 128
OscAt(i) ==
  LET n1 == 300  n2 == n1 + 3 * 256  n3 == n2 + 3 * 40  n4 == n3 + 3 * 64  n5 == n4 + 2 * 256 IN
  IF i < n1 THEN <<T("osc", <<27, 93>> \o Digits(i) \o <<59, 112, 113>> \o Terms[(i % 3) + 1]), X>>
  ELSE IF i < n2 THEN LET j == i - n1  b == j \div 3 IN       \* every payload byte
       <<T("osc", <<27, 93>> \o Digits(<<0, 2, 6, 7>>[((j + b) % 4) + 1]) \o <<59, 97, b, 98>> \o Terms[(j % 3) + 1]), T("st", <<7>>), X>>
  ELSE IF i < n3 THEN LET j == i - n2 IN                       \* long payloads
       <<T("osc", <<27, 93, 50, 59>> \o [m \in 1..(j \div 3) * 13 |-> 97 + (m % 26)] \o Terms[(j % 3) + 1]), X>>
  ELSE IF i < n4 THEN LET j == i - n3 IN                       \* 0x9c inside UTF-8
       <<T("osc", <<27, 93, 48, 59>> \o Utf8(<<128 + j>>) \o <<228 + (j % 3), 184, 156, 98>> \o Terms[(j % 3) + 1]), T("st", <<7>>), X>>
  ELSE IF i < n5 THEN LET j == i - n4 IN                       \* every byte of a DCS
       <<T("dcs", <<27, 80, 97, j % 256, 98>> \o <<27, 92>>), T("st", <<27, 92>>), T("st", <<7>>), X>>
  ELSE LET j == i - n5  b == j % 128  d == j \div 128 IN        \* every byte alone, first, last and doubled
       <<T("osc", <<27, 93>> \o Digits(<<0, 2, 6, 7>>[(d % 4) + 1]) \o <<59>>
                  \o << <<b>>, <<b, 97, 98>>, <<97, 98, b>>, <<97, b, b, 98>> >>[(d \div 4) + 1] \o Terms[(b % 3) + 1]), T("st", <<7>>), X>>

\* --- UTF-8: every lead byte with every kind of continuation
Seconds == << 65, 127, 128, 143, 144, 159, 160, 191, 192, 255 >>
Tails == << <<>>, <<128>>, <<128, 128>>, <<191, 65>> >>
Utf8Rad == <<128, Len(Seconds), Len(Tails)>>
Utf8At(i) == LET r == Utf8Rad IN
  <<T("bad", <<128 + Dig(i, r, 1), Seconds[Dig(i, r, 2) + 1]>> \o Tails[Dig(i, r, 3) + 1]), T("cr", <<13>>)>>

\* --- characters: every block of the old scripts, and both sides of every
\* border of the width table
Blocks == << <<32, 126>>, <<160, 767>>, <<8352, 8383>>, <<12272, 12351>>, <<12352, 13055>>, <<19840, 19983>>, <<40944, 40975>>, <<55184, 55215>>, <<65264, 65535>>, <<128496, 128607>> >>
Borders == [i \in 1..Len(Wide2) |-> <<Wide2[i][1] - 1, Wide2[i][1], Wide2[i][2], Wide2[i][2] + 1>>] \o << <<11833, 11834, 11835, 11836>>, <<55295, 57344, 65535, 65536>>, <<1114109, 1114110, 1114111, 127>> >>
BlocksN == FoldLeft(LAMBDA a, b : a + (b[2] - b[1]) \div 16 + 1, 0, Blocks)
CharsN == BlocksN + Len(Borders)
RECURSIVE CharsFrom(_, _)
CharsFrom(i, b) == LET m == (Blocks[b][2] - Blocks[b][1]) \div 16 + 1 IN
  IF i < m THEN [j \in 1..Min2(16, Blocks[b][2] - Blocks[b][1] - 16 * i + 1) |-> Blocks[b][1] + 16 * i + j - 1] ELSE CharsFrom(i - m, b + 1)
CharsAt(i) == IF i < BlocksN THEN <<T("cr", <<13>>), Tx(CharsFrom(i, 1))>>
              ELSE LET q == SelectSeq(Borders[i - BlocksN + 1], LAMBDA c : c >= 160 /\ c \notin 55296..57343) IN
                   <<T("cr", <<13>>)>> \o [j \in 1..Len(q) |-> Tx(<<q[j], 97>>)]

\* --- Kitty flags
KbQ == T("kbq", CSI(<<63, 117>>))
KbDepths == <<1, 2, 16, 20, 30, 31, 32, 33, 40>>
KbPairs == 4096 + 41 * 12
KbN == KbPairs + Len(KbDepths) * Len(KbDepths) * 2
KbPut(m) == T("kbpush", CSI(<<62>> \o Digits(m % 32) \o <<117>>))
KbTake == T("kbpop", CSI(<<60, 117>>))
KbEmpty == T("kbpop", CSI(<<60, 57, 57, 117>>))
GoAlt(on) == T("alt", CSI(<<63, 49, 48, 52, 57>> \o <<IF on THEN 104 ELSE 108>>))
\* both screens' stacks: a entries on the main one and b on the alternate one, put
\* there one after the other or in turns, then taken off one by one
KbBoth(a, b, turns) ==
  <<GoAlt(TRUE), KbEmpty, GoAlt(FALSE), KbEmpty, T("kbset", CSI(<<61, 53, 117>>))>>
  \o (IF turns THEN Cat([m \in 1..(IF a > b THEN a ELSE b) |-> (IF m <= a THEN <<KbPut(m)>> ELSE <<>>) \o (IF m <= b THEN <<GoAlt(TRUE), KbPut(m + 7), GoAlt(FALSE)>> ELSE <<>>)])
      ELSE [m \in 1..a |-> KbPut(m)] \o <<GoAlt(TRUE), KbQ, T("kbset", CSI(<<61, 51, 117>>))>> \o [m \in 1..b |-> KbPut(m + 7)] \o <<KbQ>>)
  \o [m \in 1..(IF turns THEN a ELSE b) + 1 |-> KbTake] \o <<GoAlt(turns), KbQ>>
  \o [m \in 1..(IF turns THEN b ELSE a) + 1 |-> KbTake] \o <<KbQ, GoAlt(~turns), KbQ, GoAlt(FALSE)>>
KbAt(i) ==
  IF i < 4096 THEN LET r == <<32, 32, 4>> IN
    <<T("kbset", CSI(<<61>> \o Digits(Dig(i, r, 1)) \o <<59, 49, 117>>)),
      T("kbset", CSI(<<61>> \o Digits(Dig(i, r, 2)) \o <<59>> \o Digits(Dig(i, r, 3)) \o <<117>>)), KbQ>>
  ELSE IF i >= KbPairs THEN LET j == i - KbPairs  r == <<Len(KbDepths), Len(KbDepths), 2>> IN
    KbBoth(KbDepths[Dig(j, r, 1) + 1], KbDepths[Dig(j, r, 2) + 1], Dig(j, r, 3) = 1)
  ELSE LET j == i - 4096  d == j % 41  n == j \div 41 IN       \* d pushes, then pops
    <<T("kbpop", CSI(<<60, 57, 57, 117>>)), T("kbset", CSI(<<61, 53, 117>>))>> \o [m \in 1..d |-> T("kbpush", CSI(<<62>> \o Digits(m % 32) \o <<117>>))]
    \o <<KbQ, T("kbpop", CSI(<<60>> \o (IF n = 0 THEN <<>> ELSE Digits(IF n <= 5 THEN n - 1 ELSE n + 22)) \o <<117>>)), KbQ>> \o Cat([m \in 1..8 |-> <<T("kbpop", CSI(<<60, 54, 117>>)), KbQ>>])

\* --- queries everywhere
Queries == << T("cpr", CSI(<<54, 110>>)), T("dsr", CSI(<<53, 110>>)), T("da1", CSI(<<99>>)), T("da1", CSI(<<48, 99>>)), T("da1", CSI(<<49, 99>>)), T("da2", CSI(<<62, 99>>)),
              T("da2", CSI(<<62, 48, 99>>)), KbQ, T("dsr", CSI(<<110>>)), T("dsr", CSI(<<55, 110>>)), T("dsr", CSI(<<63, 54, 110>>)),
              T("cpr", CSI(<<54, 110>>) \o CSI(<<53, 110>>) \o CSI(<<99>>)), T("cpr", CSI(<<53, 110>>) \o <<97>> \o CSI(<<54, 110>>) \o CSI(<<68>>) \o CSI(<<54, 110>>)) >>
QueryRad(w, h) == <<w, h, Len(Queries), 2>>
QueryAt(w, h, i) == LET r == QueryRad(w, h) IN
  <<Ready(w, h, Patterns[1], 1, h, Dig(i, r, 4) = 1, Dig(i, r, 1) + 1, Dig(i, r, 2) + 1), Tx(<<97>>), Queries[Dig(i, r, 3) + 1], Tx(<<98>>), T("cpr", CSI(<<54, 110>>))>>

\* --- what other terminals answer and this one does not
AskNums == [i \in 1..21 |-> i - 1] \o <<50, 51, 52, 60, 66, 99>> \o [i \in 1..16 |-> 103 + i] \o <<133, 176, 440, 555, 633, 697, 777, 1337, 9001>>
AskPays == << <<63>>, <<>>, <<99, 59, 63>>, <<48, 59, 63>>, <<49, 53, 59, 63>>, <<63, 59, 63>>, <<112, 59, 63>>, <<49, 59, 63, 59, 50, 59, 63>>, <<105, 61, 49, 59, 63>> >>
AskDcs == << <<36, 113, 109>>, <<36, 113, 114>>, <<36, 113, 32, 113>>, <<36, 113, 34, 112>>, <<36, 113, 115>>, <<43, 113, 53, 52, 52, 101>>, <<43, 113, 52, 51, 54, 70>>, <<43, 113>>,
             <<43, 81>>, <<61, 49, 115>>, <<62, 124>>, <<48, 36, 114, 109>>, <<49, 36, 116>>, <<36, 116>>, <<113>>, <<49, 59, 49, 124>>, <<64, 107, 105, 116, 116, 121, 45, 99, 109, 100>> >>
AskFinals == << <<116>>, <<110>>, <<99>>, <<120>>, <<36, 112>>, <<42, 121>>, <<32, 113>>, <<34, 118>>, <<36, 117>>, <<38, 117>>, <<113>>, <<83>>, <<87>>, <<109>>, <<117>>, <<43, 120>> >>
AskPres == << <<>>, <<63>>, <<62>>, <<61>> >>
AskArgs == << <<>>, <<49, 59, 49>>, <<52, 59, 49, 59, 48>>, <<59>>, <<50, 55, 48>>, <<57, 57, 54>>, <<49, 59, 49, 59, 49, 59, 49, 59, 50, 59, 50>> >> \o [i \in 1..41 |-> Digits(i - 1)]
AskModes == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 25, 40, 45, 47, 66, 67, 69, 80, 95, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1015, 1016, 1034, 1035, 1036, 1047, 1048, 1049, 2004, 2026, 2027, 2031, 2048, 5522, 9001>>
Ask1 == Len(AskNums) * Len(AskPays)
Ask2 == Ask1 + Len(AskDcs) * 2
Ask3 == Ask2 + Len(AskFinals) * Len(AskPres) * Len(AskArgs)
Ask4 == Ask3 + Len(AskModes) * 2
AskN == Ask4 + 6
AskAt(i) ==
  (IF i < Ask1 THEN <<T("osc", <<27, 93>> \o Digits(AskNums[(i % Len(AskNums)) + 1]) \o <<59>> \o AskPays[(i \div Len(AskNums)) + 1] \o Terms[((i * 5) % 3) + 1])>>
   ELSE IF i < Ask2 THEN LET j == i - Ask1 IN <<T("dcs", <<27, 80>> \o AskDcs[(j \div 2) + 1] \o (IF j % 2 = 0 THEN <<27, 92>> ELSE <<156>>))>>
   ELSE IF i < Ask3 THEN LET r == <<Len(AskFinals), Len(AskPres), Len(AskArgs)>>  j == i - Ask2 IN
        <<T("csi", CSI(AskPres[Dig(j, r, 2) + 1] \o AskArgs[Dig(j, r, 3) + 1] \o AskFinals[Dig(j, r, 1) + 1]))>>
   ELSE IF i < Ask4 THEN LET j == i - Ask3  v == AskModes[(j \div 2) + 1]  m == Digits(v)  kind == IF v = 7 THEN "wrap" ELSE IF v = 1049 THEN "alt" ELSE "mode" IN   \* is it set, set it, is it set; nothing that follows is reported
        <<T("csi", CSI(<<63>> \o m \o <<36, 112>>)), T(kind, CSI(<<63>> \o m \o <<IF j % 2 = 0 THEN 104 ELSE 108>>)), T("csi", CSI(<<63>> \o m \o <<36, 112>>)), Tx(<<19990>>), T("goto", Goto(1, 1)),
          Rsz(7 - (i % 2), 2), T("bel", <<7>>), T(kind, CSI(<<63>> \o m \o <<108>>))>>
   ELSE LET j == i - Ask4 IN << << T("esc", <<27, 90>>), T("c0", <<5>>), T("esc", <<27, 99>>), T("c0", <<5, 5>>), T("esc", <<27, 55>>), T("esc", <<27, 95>>) >>[j + 1] >>)
  \o <<X>>

\* --- all words of a length over an alphabet, from a fresh screen each
AltAlpha == << T("alt", CSI(<<63, 49, 48, 52, 57, 104>>)), T("alt", CSI(<<63, 49, 48, 52, 57, 108>>)), Tx(<<97, 98, 99, 100>>), T("goto", Goto(2, 2)), T("sc", CSI(<<115>>)),
               T("rc", CSI(<<117>>)), T("region", C2(2, 3, 114)), T("wrap", CSI(<<63, 55, 104>>)), T("lf", <<10>>), T("kbpush", CSI(<<62, 53, 117>>)), KbQ,
               T("sgr", CSI(<<52, 49, 109>>)), T("ed", CSI(<<74>>)), T("resize3", <<>>), T("cpr", CSI(<<54, 110>>)) >>
CellAlpha == << Tx(<<97>>), Tx(<<19990>>), T("goto", Goto(2, 1)), T("cub", CSI(<<68>>)), T("dch", CSI(<<80>>)), T("ech", CSI(<<88>>)), T("el", CSI(<<49, 75>>)), T("lf", <<10>>),
                T("wrap", CSI(<<63, 55, 104>>)), T("sgr", CSI(<<52, 49, 109>>)), T("ri", <<27, 77>>), T("resize3", <<>>), Tx(<<11834>>), T("il", CSI(<<76>>)) >>
Clear == T("setup", CSI(<<63, 49, 48, 52, 57, 104>>) \o CSI(<<109>>) \o CSI(<<63, 55, 108>>) \o CSI(<<114>>) \o CSI(<<50, 74>>) \o CSI(<<115>>) \o CSI(<<60, 57, 57, 117>>)
                   \o CSI(<<63, 49, 48, 52, 57, 108>>) \o CSI(<<63, 55, 108>>) \o CSI(<<114>>) \o CSI(<<50, 74>>) \o CSI(<<115>>) \o CSI(<<60, 57, 57, 117>>))
RECURSIVE Word(_, _, _)
Word(A, i, l) == IF l = 0 THEN <<>> ELSE <<A[(i % Len(A)) + 1]>> \o Word(A, i \div Len(A), l - 1)
FixWord(w, h, q) == [j \in 1..Len(q) |-> IF q[j].k = "resize3" THEN Rsz(IF j % 2 = 0 THEN w ELSE w - 1, IF j % 2 = 0 THEN h + 1 ELSE h) ELSE q[j]]
WordAt(A, l, w, h, i) == <<Rsz(w, h), Clear>> \o FixWord(w, h, Word(A, i, l))

\* --- grapheme clusters: pairs of pieces, apart and together
Pieces == << <<101, 769>>, <<128105, 8205, 128640>>, <<128105, 127997>>, <<127462, 127463>>, <<19990>>, <<19990, 769>>, <<10084, 65039>>, <<10084>>, <<4352, 4449, 4520>>,
             <<44032>>, <<4520>>, <<4449>>, <<11834>>, <<2309, 2307>>, <<97>>, <<32>>, <<133>>, <<127462>>, <<769>>, <<8205>>, <<65039>>, <<65038>>, <<127997>>, <<128640>>, <<8205, 769>>, <<1536>>,
             <<2307>>, <<128512>>, <<173>>, <<8205, 128640>>, <<769, 8205>> >>
GraphRad(w, h) == <<Len(Pieces), Len(Pieces), w, 3>>
GraphAt(w, h, i) ==
  LET r == GraphRad(w, h)  a == Pieces[Dig(i, r, 1) + 1]  b == Pieces[Dig(i, r, 2) + 1]  how == Dig(i, r, 4) IN
  <<T("setup", CSI(<<63, 55, 108>>) \o CSI(<<50, 74>>) \o CSI(<<63, 55>> \o <<IF (i \div 7) % 2 = 0 THEN 104 ELSE 108>>) \o Goto(Dig(i, r, 3) + 1, 1))>> \o
  (IF how = 0 THEN <<Tx(a \o b)>> ELSE IF how = 1 THEN <<Tx(a), Tx(b)>> ELSE <<Tx(a), T("c0", <<0>>), Tx(b)>>)

--------------------------------------------------------------------------
Sizes ==
  CASE Set = "cursor" -> SizesUpTo(4, 4) \o << <<9, 1>>, <<17, 1>>, <<16, 2>> >>
    [] Set = "erase"  -> SizesUpTo(6, 2) \o << <<3, 3>>, <<4, 3>> >>
    [] Set = "scroll" -> << <<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 5>> >>
    [] Set = "marg"   -> << <<1, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<1, 5>> >>
    [] Set = "text"   -> << <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<6, 1>>, <<7, 2>> >>
    [] Set = "resize" -> << <<1, 1>>, <<2, 2>>, <<3, 2>>, <<4, 3>>, <<5, 4>>, <<2, 4>> >>
    [] Set = "query"  -> SizesUpTo(3, 3) \o << <<12, 11>> >>
    [] Set \in {"altwords", "cellwords"} -> << <<3, 3>>, <<2, 1>> >>
    [] Set = "graph"  -> << <<1, 1>>, <<2, 1>>, <<3, 2>>, <<5, 2>> >>
    [] Set = "chars"  -> << <<40, 1>> >>
    [] OTHER          -> << <<7, 2>> >>

N(w, h) ==
  CASE Set = "cursor" -> Prod(CursorRad(w, h))
    [] Set = "erase"  -> Prod(EraseRad(w, h))
    [] Set = "scroll" -> Prod(ScrollRad(w, h))
    [] Set = "marg"   -> Prod(MargRad(w, h))
    [] Set = "text"   -> Prod(TextRad(w, h))
    [] Set = "resize" -> Prod(ResizeRad(w, h))
    [] Set = "sgr"    -> SgrN
    [] Set = "modes"  -> ModesN
    [] Set = "csi"    -> Prod(CsiRad)
    [] Set = "esc"    -> EscN
    [] Set = "osc"    -> OscN
    [] Set = "utf8"   -> Prod(Utf8Rad)
    [] Set = "chars"  -> CharsN
    [] Set = "kb"     -> KbN
    [] Set = "query"  -> Prod(QueryRad(w, h))
    [] Set = "ask"    -> AskN
    [] Set = "altwords" -> Len(AltAlpha) ^ 4
    [] Set = "cellwords" -> Len(CellAlpha) ^ 4
    [] Set = "graph"  -> Prod(GraphRad(w, h))

At(w, h, i) ==
  CASE Set = "cursor" -> CursorAt(w, h, i)
    [] Set = "erase"  -> EraseAt(w, h, i)
    [] Set = "scroll" -> ScrollAt(w, h, i)
    [] Set = "marg"   -> MargAt(w, h, i)
    [] Set = "text"   -> TextAt(w, h, i)
    [] Set = "resize" -> ResizeAt(w, h, i)
    [] Set = "sgr"    -> SgrAt(i)
    [] Set = "modes"  -> ModesAt(i)
    [] Set = "csi"    -> CsiAt(i)
    [] Set = "esc"    -> EscAt(i)
    [] Set = "osc"    -> OscAt(i)
    [] Set = "utf8"   -> Utf8At(i)
    [] Set = "chars"  -> CharsAt(i)
    [] Set = "kb"     -> KbAt(i)
    [] Set = "query"  -> QueryAt(w, h, i)
    [] Set = "ask"    -> AskAt(i)
    [] Set = "altwords" -> WordAt(AltAlpha, 4, w, h, i)
    [] Set = "cellwords" -> WordAt(CellAlpha, 4, w, h, i)
    [] Set = "graph"  -> GraphAt(w, h, i)

--------------------------------------------------------------------------
(* Blocks of PerBlock items, numbered through all sizes.                   *)
NBlocks(sz) == (N(sz[1], sz[2]) + PerBlock - 1) \div PerBlock
\* plan: [total, sizes with their number of blocks]
Plan == LET q == [i \in 1..Len(Sizes) |-> [sz |-> Sizes[i], n |-> N(Sizes[i][1], Sizes[i][2]), m |-> NBlocks(Sizes[i])]]
        IN [q |-> q, total |-> FoldLeft(LAMBDA a, x : a + x.m, 0, q)]
RECURSIVE Locate(_, _, _)     \* block number -> size, first and last item
Locate(q, b, i) ==
  IF b < q[i].m THEN [w |-> q[i].sz[1], h |-> q[i].sz[2], first |-> b * PerBlock, last |-> Min2((b + 1) * PerBlock, q[i].n) - 1]
  ELSE Locate(q, b - q[i].m, i + 1)
Mine(b) == b % NShard = Shard /\ ((b \div NShard) * 7 + Seed * 31 + (b \div (NShard * 11))) % Sample = 0
RECURSIVE NextMine(_, _)
NextMine(total, b) == IF b >= total THEN b ELSE IF Mine(b) THEN b ELSE NextMine(total, b + 1)
None == T("none", <<>>)

Emit(lg, s) ==
  AppendLine(ToJson([w |-> cur.w, h |-> cur.h, buf |-> Buf, mode |-> Mode, profile |-> "enum-" \o Set, legal |-> 0,
                     steps |-> lg, trail |-> Trail(s)]), OutFile)

Init ==
  /\ plan = Plan
  /\ blk = -1 /\ cur = [w |-> 1, h |-> 1, first |-> 0, last |-> 0] /\ item = 0 /\ pend = <<>>
  /\ t = NewTerminal(1, 1, Buf, Mode)
  /\ prev = t /\ tok = None /\ log = <<>>

Step ==
  /\ pend # <<>>
  /\ LET k == Head(pend)
         b == IF k.k = "resize" THEN Resize(Fresh(t), k.z[1], k.z[2]) ELSE Feed(Fresh(t), k.b)
         lg == Append(log, Image(t, b, k))
     IN /\ prev' = t /\ tok' = k /\ t' = b /\ log' = lg
        /\ IF Tail(pend) # <<>> THEN pend' = Tail(pend) /\ item' = item
           ELSE IF item < cur.last THEN pend' = At(cur.w, cur.h, item + 1) /\ item' = item + 1
           ELSE Emit(lg, b) /\ pend' = <<>> /\ item' = item
  /\ UNCHANGED <<plan, blk, cur>>
NextBlock ==
  /\ pend = <<>> /\ blk < plan.total
  /\ blk' = NextMine(plan.total, blk + 1)
  /\ IF blk' < plan.total
     THEN /\ cur' = Locate(plan.q, blk', 1)
          /\ item' = cur'.first
          /\ pend' = At(cur'.w, cur'.h, item')
          /\ t' = NewTerminal(cur'.w, cur'.h, Buf, Mode)
     ELSE UNCHANGED <<cur, item, pend>> /\ t' = Fresh(t)
  /\ prev' = t' /\ tok' = None /\ log' = <<>>
  /\ UNCHANGED plan
Spec == Init /\ [][Step \/ NextBlock]_vars

Where == <<blk, item, Len(pend)>>     \* a position determines the state

TypeOK == TermOK(t)
C02 == P02(prev, tok, t)
C03 == P03(prev, tok, t)
C04 == P04(prev, tok, t)
C05 == P05(prev, tok, t)
C06 == P06(prev, tok, t)
C07 == P07(prev, tok, t)
C08 == P08(prev, tok, t)
C09 == P09(prev, tok, t)
C10 == P10(prev, tok, t)
C11 == P11(t)
C14 == P14(prev, tok, t)
C17 == P17(prev, tok, t)
C18 == P18(prev, tok, t)
C19 == P19(prev, tok, t)
C20 == P20(prev, tok, t)
=============================================================================

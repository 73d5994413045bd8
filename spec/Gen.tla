-------------------------------- MODULE Gen --------------------------------
(* Random behaviours of Terminal, for replay into the implementation.      *)
(* One behaviour = one terminal of a random size driven by DEPTH tokens    *)
(* (or resizes); the JSON record written at its end carries, per step, the *)
(* input and everything observable about the state the specification       *)
(* requires afterwards.  The token mix is chosen by IOEnv.PROFILE.         *)
EXTENDS TermJson, TermProps, SequencesExt

CONSTANTS DEPTH

VARIABLES t, prev, tok, n, log, size0,
          rest      \* <<>>, or the rest of a sequence of which a part has been fed

vars == <<t, prev, tok, n, log, size0, rest>>

Profile == IOEnv.PROFILE
OutFile == IOEnv.OUT
Buf     == IOEnv.BUF
Mode    == IOEnv.MODE

--------------------------------------------------------------------------
(* Random choice.  Every operator takes the step number: an operator with  *)
(* an argument is evaluated at each use, never once and for all.           *)
Pick(k, S) == RandomElement(S)
Pct(k) == Pick(k, 1..100)
PickSeq(k, q) == q[Pick(k, 1..Len(q))]

Times(k, m, Op(_)) == FoldLeft(LAMBDA acc, x : Append(acc, Op(k)), <<>>, [i \in 1..m |-> i])
Cat(ss) == FlattenSeq(ss)

Ascii == 33..126
Alpha == {97, 98, 99, 100, 65, 66}
NarrowU == {233, 945, 1073, 8364, 769, 8205, 133, 2047, 2048, 65535, 65536, 1114111, 65533, 127, 160}
WideU == {19990, 30028, 128512, 128057, 44032, 12288}
VWideU == {11834, 11835}

RuneCp(k) ==
  LET d == Pct(k) IN
  IF d <= 50 THEN Pick(k, Alpha)
  ELSE IF d <= 60 THEN Pick(k, Ascii)
  ELSE IF d <= 66 THEN 32
  ELSE IF d <= 74 THEN Pick(k, NarrowU \ {127})
  ELSE IF d <= 92 THEN Pick(k, WideU)
  ELSE IF d <= 94 THEN Pick(k, 160..55295)
  ELSE IF d <= 96 THEN Wide2[Pick(k, 1..Len(Wide2))][Pick(k, 1..2)]
  ELSE Pick(k, VWideU)

GraphPieces ==
  << <<101, 769>>, <<97, 776, 769>>, <<128105, 8205, 128640>>, <<128105, 127997>>, <<127462, 127463>>,
     <<127463, 127464>>, <<19990>>, <<19990, 769>>, <<128512>>, <<10084, 65039>>, <<4352, 4449, 4520>>,
     <<44032, 4520>>, <<11834>>, <<2309, 2307>>, <<97>>, <<98>>, <<99>>, <<32>>, <<133>>, <<8364>>,
     <<128512, 8205, 128057>>, <<127462>>, <<769>>, <<8205>>, <<65039>>, <<65038>>, <<127997>>, <<128640>>,
     <<8205, 769>>, <<1536>>, <<4449>>, <<4520>>, <<44033>>, <<2307>>, <<8413>>, <<10084>>, <<11835>>, <<12288>>,
     <<127462, 127463, 127464>>, <<173>> >>
GraphText(k) == IF Pct(k) <= 50 THEN <<Pick(k, Alpha)>> ELSE PickSeq(k, GraphPieces)
\* with LEGAL every token boundary is a cluster boundary, whatever stands before it
Legal == IOEnv.LEGAL = "1"
GraphTok(k, m) == LET q == Cat(Times(k, m, GraphText)) IN
  IF ~Legal THEN q ELSE <<Pick(k, Alpha)>> \o (IF q[Len(q)] = 1536 THEN Append(q, 97) ELSE q)

TextLen(k) == LET d == Pct(k) IN IF d <= 45 THEN 1 ELSE IF d <= 90 THEN Pick(k, 2..6) ELSE Pick(k, 7..2 * TW(t) + 8)
TextCps(k) == IF Mode = "rune" THEN Times(k, TextLen(k), RuneCp) ELSE GraphTok(k, TextLen(k))
Utf8(cps) == Cat([i \in 1..Len(cps) |-> Encode8(cps[i])])
TextTok(k) == Utf8(TextCps(k))

BadTok(k) == (IF Mode # "rune" /\ Legal THEN <<97>> ELSE <<>>) \o Cat(Times(k, Pick(k, 1..4), LAMBDA j : PickSeq(j,
  << <<128>>, <<191>>, <<192, 128>>, <<193, 65>>, <<224, 128, 128>>, <<237, 160, 128>>, <<240, 128, 128, 128>>,
     <<244, 144, 128, 128>>, <<245, 97>>, <<255>>, <<254, 253>>, <<228, 184>>, <<240, 159, 152>>, <<228, 97>>,
     <<226, 130, 228, 184, 150>>, <<240, 159, 97>>, <<195>>, <<97>>, <<228, 184, 150>>, <<156>>, <<155, 49, 109>> >>)))

--------------------------------------------------------------------------
(* Numbers in control sequences.                                           *)
Num(k, hi) ==
  LET d == Pct(k) IN
  IF d <= 12 THEN <<>>
  ELSE IF d <= 20 THEN <<48>>
  ELSE IF d <= 86 THEN Digits(Pick(k, 1..hi + 2))
  ELSE IF d <= 92 THEN Digits(Pick(k, {hi, hi + 1, 99, 1000}))
  ELSE IF d <= 96 THEN <<48, 48>> \o Digits(Pick(k, 1..hi))
  ELSE PickSeq(k, << Digits(65536), Digits(16777215), <<57,57,57,57,57,57,57,57,57,57>>,
                     <<50,49,52,55,52,56,51,54,52,56>>, <<52,50,57,52,57,54,55,50,57,55>>,
                     <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>,
                     <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
                     <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,55>> >>)
CSI(k, f) == <<27, 91>> \o f
Csi1(k, hi, f) == CSI(k, Num(k, hi) \o (IF Pct(k) <= 4 THEN <<59>> \o Num(k, 9) ELSE <<>>) \o <<f>>)
\* two parameters, either of which may be missing
Csi2(k, h1, h2, f) ==
  LET d == Pct(k) IN
  CSI(k, (IF d <= 8 THEN <<>> ELSE Num(k, h1) \o (IF d <= 18 THEN <<>> ELSE <<59>> \o Num(k, h2))) \o <<f>>)

SgrCodes == (0..9) \cup (21..29) \cup (30..37) \cup {39} \cup (40..47) \cup {49} \cup (51..55) \cup (90..97) \cup (100..107)
Col8(k) == PickSeq(k, << 0, 1, 7, 8, 9, 15, 16, 127, 128, 200, 254, 255, 256, 300, 511 >>)
SgrItem(k) ==
  LET d == Pct(k) IN
  IF d <= 62 THEN Digits(Pick(k, SgrCodes))
  ELSE IF d <= 74 THEN Digits(Pick(k, {38, 48})) \o <<59, 53, 59>> \o Digits(Col8(k))
  ELSE IF d <= 90 THEN Digits(Pick(k, {38, 48})) \o <<59, 50, 59>> \o Digits(Col8(k)) \o <<59>> \o Digits(Col8(k)) \o <<59>> \o Digits(Col8(k))
  ELSE IF d <= 93 THEN <<>>
  ELSE IF d <= 96 THEN Digits(Pick(k, {38, 48}))
  ELSE IF d <= 98 THEN Digits(Pick(k, {38, 48})) \o PickSeq(k, << <<59, 53>>, <<59, 50>>, <<59, 50, 59, 49>>, <<59, 51, 59, 49>> >>)
  ELSE Digits(Pick(k, {10, 11, 20, 26, 38, 48, 50, 56, 58, 59, 73, 89, 98, 99, 108, 1000}))
Join(ss) == Tail(FoldLeft(LAMBDA acc, x : acc \o <<59>> \o x, <<>>, ss))
SgrCount(k) == LET d == Pct(k) IN IF d <= 55 THEN 1 ELSE IF d <= 85 THEN Pick(k, 2..4) ELSE Pick(k, 5..14)
SgrTok(k) == CSI(k, Join(Times(k, SgrCount(k), SgrItem)) \o <<109>>)

ModeNums == {1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1034, 1049, 2004}
ModeNum(k) == LET d == Pct(k) IN
  Digits(IF d <= 20 THEN 7 ELSE IF d <= 40 THEN 1049 ELSE IF d <= 94 THEN Pick(k, ModeNums)
         ELSE Pick(k, {0, 2, 3, 4, 5, 6, 8, 10, 47, 66, 69, 1001, 1047, 1048, 2026, 9999}))
ModeTok(k) == CSI(k, <<63>> \o Join(Times(k, IF Pct(k) <= 75 THEN 1 ELSE Pick(k, 2..4), ModeNum)) \o <<Pick(k, {104, 108})>>)
AltTok(k)  == CSI(k, <<63, 49, 48, 52, 57>> \o <<Pick(k, {104, 108})>>)
WrapTok(k) == CSI(k, <<63, 55>> \o <<IF Pct(k) <= 65 THEN 104 ELSE 108>>)

KbNum(k) == LET d == Pct(k) IN IF d <= 12 THEN <<>> ELSE IF d <= 90 THEN Digits(Pick(k, 0..31)) ELSE Num(k, 64)
KbSetTok(k) == CSI(k, <<61>> \o KbNum(k) \o (IF Pct(k) <= 25 THEN <<>> ELSE <<59>> \o (IF Pct(k) <= 92 THEN Digits(Pick(k, 1..3)) ELSE Num(k, 6))) \o <<117>>)
KbPushTok(k) == CSI(k, <<62>> \o KbNum(k) \o <<117>>)
KbPopTok(k) == CSI(k, <<60>> \o (IF Pct(k) <= 35 THEN <<>> ELSE IF Pct(k) <= 80 THEN Digits(Pick(k, 1..4)) ELSE Num(k, 40)) \o <<117>>)
KbQTok(k) == CSI(k, <<63, 117>>)

Payload(k) == Cat(Times(k, Pick(k, 0..8), LAMBDA j : PickSeq(j,
  << <<97>>, <<59>>, <<48>>, <<32>>, <<195, 156>>, <<228, 184, 150>>, <<240, 159, 152, 128>>, <<226, 156, 156>>, <<27>>, <<10>>, <<24>>,
     <<92>>, <<91, 74>>, <<228, 184>>, <<255>>, <<0>>, <<127>>, <<93>>, <<47>>, <<37, 50, 48>>, <<58>>, <<46, 46>>, <<Pick(j, 32..126)>>,
     <<Pick(j, 32..126)>>, <<Pick(j, 1..255)>> >>)))
Term8(k) == PickSeq(k, << <<7>>, <<27, 92>>, <<156>> >>)
OscNum(k) == LET d == Pct(k) IN
  IF d <= 60 THEN Digits(PickSeq(k, <<0, 2, 6, 7>>)) ELSE IF d <= 70 THEN <<48>> \o Digits(PickSeq(k, <<0, 2, 6, 7>>))
  ELSE Digits(Pick(k, {1, 3, 4, 5, 8, 9, 10, 11, 12, 20, 52, 60, 70, 104, 112, 133, 777, 1337}))
OscTok(k) ==
  LET d == Pct(k) IN
  <<27, 93>> \o (IF d <= 78 THEN OscNum(k) \o <<59>> \o Payload(k)
                 ELSE IF d <= 86 THEN OscNum(k)
                 ELSE IF d <= 92 THEN <<PickSeq(k, <<76, 108, 59, 80, 63>>)>> \o Payload(k)
                 ELSE IF d <= 96 THEN OscNum(k) \o <<97>> \o Payload(k)
                 ELSE <<59>> \o Payload(k)) \o Term8(k)
DcsTok(k) == <<27, 80>> \o Cat(Times(k, Pick(k, 0..5), LAMBDA j : PickSeq(j,
  << <<97>>, <<36, 113>>, <<49, 59, 50>>, <<7>>, <<195, 156>>, <<27>>, <<27, 91, 50, 74>>, <<10>>, <<228, 184, 150>>, <<43, 113>> >>))) \o PickSeq(k, << <<27, 92>>, <<156>> >>)

\* any syntactically valid CSI
CsiByte(k) == LET d == Pct(k) IN IF d <= 55 THEN Pick(k, 48..57) ELSE IF d <= 80 THEN 59 ELSE IF d <= 90 THEN 58 ELSE Pick(k, 60..63)
AnyCsi(k) ==
  CSI(k, (IF Pct(k) <= 30 THEN <<Pick(k, 60..63)>> ELSE <<>>)
         \o (IF Pct(k) <= 85 THEN Cat(Times(k, Pick(k, 0..5), LAMBDA j : IF Pct(j) <= 60 THEN Num(j, 12) ELSE <<CsiByte(j)>>))
             ELSE Join(Times(k, Pick(k, 6..20), LAMBDA j : Num(j, 60))))
         \o (IF Pct(k) <= 25 THEN Times(k, Pick(k, 1..2), LAMBDA j : Pick(j, 32..47)) ELSE <<>>)
         \o <<Pick(k, 64..126)>>)
\* any ESC sequence that is not an introducer of CSI, OSC or DCS
AnyEsc(k) ==
  LET d == Pct(k) IN
  IF d <= 50 THEN <<27>> \o Times(k, Pick(k, 1..3), LAMBDA j : Pick(j, 32..47)) \o <<Pick(k, 48..126)>>
  ELSE <<27, Pick(k, (48..126) \ {80, 91, 93})>>
MokTok(k) == CSI(k, <<62, 52>> \o (IF Pct(k) <= 80 THEN <<59>> \o Num(k, 3) ELSE <<>>) \o <<109>>)

--------------------------------------------------------------------------
(* The user's events. *)
KeyMod(k) == LET d == Pct(k) IN IF d <= 25 THEN 0 ELSE IF d <= 75 THEN Pick(k, {1, 2, 4, 8, 16, 32, 64, 128, 5, 3, 6}) ELSE Pick(k, 0..255)
KeyRune(k) == LET d == Pct(k) IN IF d <= 70 THEN Pick(k, 32..126) ELSE IF d <= 80 THEN Pick(k, {233, 201, 223, 255, 962, 931, 1078, 8364, 12354, 19990, 128512, 1114111})
              ELSE Pick(k, {32, 49, 50, 54, 64, 91, 92, 96, 97, 105, 109, 122, 65, 90})
KeyZ(k) ==
  LET code == IF Pct(k) <= 40 THEN 0 ELSE Pick(k, KB!Codes)
      ev == IF Pct(k) <= 60 THEN 1 ELSE Pick(k, 2..3)
      alt == Pct(k)
  IN <<code, KeyRune(k), KeyMod(k), ev, IF alt <= 20 THEN Pick(k, 65..90) ELSE 0, IF alt \in 10..30 THEN Pick(k, 97..122) ELSE 0>>
     \o (IF Pct(k) <= 10 THEN Pick(k, {<<65>>, <<233, 97>>, <<27, 98>>, <<128512>>}) ELSE <<>>)
MouseXY(k) == LET d == Pct(k) IN IF d <= 50 THEN Pick(k, 1..100) ELSE IF d <= 95 THEN Pick(k, {94, 95, 96, 127, 128, 222, 223, 224, 255, 256, 257, 999}) ELSE Pick(k, {2014, 2015, 2016, 5000})
MouseZ(k) == <<Pick(k, 0..3), Pick(k, 0..1), 4 * Pick(k, 0..31), MouseXY(k), MouseXY(k)>>
MouseSel(k) == CSI(k, <<63>> \o Digits(Pick(k, {9, 1000, 1002, 1003, 1005, 1006, 1000, 1003, 1006})) \o <<IF Pct(k) <= 75 THEN 104 ELSE 108>>)
AppSel(k) == CSI(k, <<63, 49>> \o <<Pick(k, {104, 108})>>)
\* lengths at and beyond the sizes of buffers
LongLen(k) == IF Pct(k) <= 50 THEN Pick(k, {200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049}) ELSE Pick(k, 100..3000)
LongPiece(k) == LET d == Pct(k) IN IF d <= 80 THEN <<Pick(k, Ascii)>> ELSE PickSeq(k, << <<195, 156>>, <<228, 184, 150>>, <<240, 159, 152, 128>>, <<27>>, <<10>>, <<59>>, <<0>> >>)
LongPay(k) == IF Pct(k) <= 40 THEN LET one == LongPiece(k) IN Cat(Times(k, LongLen(k), LAMBDA j : one)) ELSE Cat(Times(k, LongLen(k), LongPiece))
LongOsc(k) == <<27, 93>> \o Digits(PickSeq(k, <<0, 2, 6, 7, 7, 9>>)) \o <<59>> \o LongPay(k) \o <<92>> \o Term8(k)
LongDcs(k) == <<27, 80>> \o LongPay(k) \o <<92, 27, 92>>
LongCsi(k) ==
  LET d == Pct(k) IN
  IF d <= 50 THEN CSI(k, (IF Pct(k) <= 25 THEN <<63>> ELSE <<>>) \o Join(Times(k, Pick(k, {15, 16, 17, 31, 32, 33, 64, 65, 200, 600}), LAMBDA j : Num(j, 60)))
                              \o <<PickSeq(k, <<109, 109, 109, 72, 74, 114, 104, 108, 99, 65>>)>>)
  ELSE IF d <= 80 THEN CSI(k, Times(k, LongLen(k), LAMBDA j : Pick(j, IF d <= 65 THEN {48} ELSE 48..57)) \o <<Pick(k, 48..50), PickSeq(k, <<65, 66, 67, 68, 71, 72, 74, 75, 76, 109, 110>>)>>)
  ELSE <<27, 91>> \o Times(k, LongLen(k), LAMBDA j : Pick(j, 32..63)) \o <<Pick(k, 64..126)>>
LongEsc(k) == <<27>> \o Times(k, LongLen(k), LAMBDA j : Pick(j, 32..47)) \o <<Pick(k, 48..126)>>
LongText(k) == IF Mode = "rune" THEN Utf8(Times(k, LongLen(k), RuneCp)) ELSE Utf8(GraphTok(k, LongLen(k) \div 4))
LongKinds == [losc |-> "osc", ldcs |-> "dcs", lcsi |-> "csi", lesc |-> "esc", ltext |-> "text"]
Name(kind) == IF kind \in DOMAIN LongKinds THEN LongKinds[kind] ELSE kind

TokenOf(k, kind) ==
  LET W == TW(t)  H == TH(t) IN
  CASE kind = "text" -> TextTok(k)
    [] kind = "bad"  -> BadTok(k)
    [] kind = "bs"   -> <<PickSeq(k, <<8, 8, 127>>)>>
    [] kind = "ht"   -> <<9>>
    [] kind = "lf"   -> <<10>>
    [] kind = "ff"   -> <<12>>
    [] kind = "cr"   -> <<13>>
    [] kind = "ind"  -> <<27, 68>>
    [] kind = "ri"   -> <<27, 77>>
    [] kind = "c0"   -> <<PickSeq(k, <<0, 1, 5, 6, 11, 14, 15, 17, 19, 24, 26, 28, 31>>)>>
    [] kind = "bel"  -> <<7>>
    [] kind = "cuu"  -> Csi1(k, H, 65)
    [] kind = "cud"  -> Csi1(k, H, 66)
    [] kind = "cuf"  -> Csi1(k, W, 67)
    [] kind = "cub"  -> Csi1(k, W, 68)
    [] kind = "cha"  -> Csi1(k, W, 71)
    [] kind = "vpa"  -> Csi1(k, H, 100)
    [] kind = "cup"  -> Csi2(k, H, W, Pick(k, {72, 102}))
    [] kind = "goto" -> CSI(k, Digits(Pick(k, 1..H)) \o <<59>> \o Digits(Pick(k, 1..W)) \o <<72>>)
    [] kind = "sc"   -> CSI(k, <<115>>)
    [] kind = "rc"   -> CSI(k, <<117>>)
    [] kind = "ed"   -> CSI(k, PickSeq(k, << <<>>, <<48>>, <<49>>, <<49>>, <<50>>, <<51>>, <<53>> >>) \o <<74>>)
    [] kind = "el"   -> CSI(k, PickSeq(k, << <<>>, <<48>>, <<49>>, <<49>>, <<50>>, <<51>> >>) \o <<75>>)
    [] kind = "ech"  -> Csi1(k, W, 88)
    [] kind = "dch"  -> Csi1(k, W, 80)
    [] kind = "il"   -> Csi1(k, H, 76)
    [] kind = "dl"   -> Csi1(k, H, 77)
    [] kind = "su"   -> Csi1(k, H, 83)
    [] kind = "sd"   -> Csi1(k, H, 84)
    [] kind = "stbm" -> Csi2(k, H, H, 114)
    [] kind = "region" -> PickSeq(k, << CSI(k, Join(Pick(k, {<<Digits(a), Digits(b)>> : a \in 1..H, b \in 1..H})) \o <<114>>),
                                   CSI(k, Join(Pick(k, {<<Digits(a), Digits(H + 1 - a)>> : a \in 1..(H + 1) \div 2})) \o <<114>>),
                                   CSI(k, Join(Pick(k, {<<Digits(a), Digits(b)>> : a \in 1..(H + 1) \div 2, b \in (H + 1) \div 2..H})) \o <<114>>) >>)
    [] kind = "sgr"  -> SgrTok(k)
    [] kind = "wrap" -> WrapTok(k)
    [] kind = "alt"  -> AltTok(k)
    [] kind = "mode" -> ModeTok(k)
    [] kind = "keypad" -> <<27, Pick(k, {61, 62})>>
    [] kind = "mok"  -> MokTok(k)
    [] kind = "kbset" -> KbSetTok(k)
    [] kind = "kbpush" -> KbPushTok(k)
    [] kind = "kbpop" -> KbPopTok(k)
    [] kind = "kbq"  -> KbQTok(k)
    [] kind = "da1"  -> CSI(k, PickSeq(k, << <<>>, <<48>>, <<48>>, <<49>>, <<59, 49>> >>) \o <<99>>)
    [] kind = "da2"  -> CSI(k, <<62>> \o PickSeq(k, << <<>>, <<48>>, <<49>> >>) \o <<99>>)
    [] kind = "dsr"  -> CSI(k, PickSeq(k, << <<53>>, <<53>>, <<54>>, <<48, 54>>, <<>>, <<48>>, <<55>>, <<49, 53>>, <<53, 59, 54>> >>) \o <<110>>)
    [] kind = "cpr"  -> CSI(k, <<54, 110>>)
    [] kind = "osc"  -> OscTok(k)
    [] kind = "dcs"  -> DcsTok(k)
    [] kind = "st"   -> Term8(k)
    [] kind = "csi"  -> AnyCsi(k)
    [] kind = "esc"  -> AnyEsc(k)
    [] kind = "msel" -> MouseSel(k)
    [] kind = "losc" -> LongOsc(k)
    [] kind = "ldcs" -> LongDcs(k)
    [] kind = "lcsi" -> LongCsi(k)
    [] kind = "lesc" -> LongEsc(k)
    [] kind = "ltext" -> LongText(k)
    [] kind = "asel" -> AppSel(k)

Mix ==
  CASE Profile = "text" ->
        <<"text","text","text","text","text","text","text","text","text","goto","goto","cuf","cub","wrap","wrap","sgr","region","lf","cr","el","bs","bad","cha", "ri", "sc", "rc">>
    [] Profile = "cursor" ->
        <<"text","text","bs","ht","lf","ff","cr","ind","ri","cuu","cud","cuf","cub","cha","vpa","cup","sc","rc","region","stbm","wrap","goto","ind","ri","lf","sgr", "resize">>
    [] Profile = "erase" ->
        <<"text","text","text","text","goto","goto","ed","el","ech","dch","dch","ech","el","sgr","ed","wrap","cub","cha">>
    [] Profile = "scroll" ->
        <<"text","text","text","il","dl","su","sd","region","region","stbm","goto","lf","ind","ri","sgr","wrap","il","dl","su","sd","vpa", "resize">>
    [] Profile = "sgr" ->
        <<"sgr","sgr","sgr","sgr","text","text","ech","el","dch","goto","lf","il","ed","alt","su","wrap","cub">>
    [] Profile = "modes" ->
        <<"mode","mode","mode","mode","alt","alt","alt","text","text","goto","region","wrap","sc","rc","lf","kbset","kbpush","kbpop","kbq","sgr","keypad","mok","cpr","ed", "resize">>
    [] Profile = "kb" ->
        <<"kbset","kbset","kbpush","kbpush","kbpush","kbpop","kbq","kbq","kbq","alt","kbpush","text">>
    [] Profile = "kbdeep" ->
        <<"kbpush","kbpush","kbpush","kbpush","kbpush","kbpush","kbpush","kbpush","kbq","kbset","kbpush", "kbpush", "kbpop">>
    [] Profile = "query" ->
        <<"da1","da2","dsr","cpr","kbq","text","goto","lf","alt","wrap","kbset","cup","dsr","cpr","rc","sc","ht","csi","region","cuf", "resize">>
    [] Profile = "syntax" ->
        <<"csi","csi","csi","csi","csi","csi","esc","esc","esc","osc","osc","osc","dcs","dcs","text","text","c0","bel","bad","goto","sgr", "keypad">>
    [] Profile = "resize" ->
        <<"resize","resize","resize","text","text","text","goto","goto","region","sc","rc","lf","wrap","alt","sgr","ind","ri","il","dl","el","ech","dch","cuu","cud">>
    [] Profile = "long" ->
        <<"losc","ldcs","lcsi","lcsi","lesc","ltext","ltext","osc","mode","kbq","bel","text","text","text","text","goto","goto","goto","sgr","cpr","ed","wrap","resize","lf","csi","el","text","cup","dsr","region","alt","key","mouse","sc","rc">>
    [] Profile = "keys" ->
        <<"key","key","key","key","key","key","key","key","key","key","kbset","kbset","kbpush","kbpop","kbpop","alt","mok","asel","asel","mode","text","kbq","osc","keypad","csi","key","key","key">>
    [] Profile = "mouse" ->
        <<"mouse","mouse","mouse","mouse","mouse","mouse","mouse","mouse","mouse","msel","msel","msel","alt","mode","text","osc","kbset","csi","key","resize">>
    [] OTHER ->
        <<"text","text","text","text","text","bs","ht","lf","ff","cr","ind","ri","cuu","cud","cuf","cub","cha","vpa","cup","goto","sc","rc","ed","el","ech","dch","il","dl","su","sd","region","stbm","sgr","sgr","wrap","alt","mode","kbset","kbpush","kbpop","kbq","da1","da2","dsr","cpr","osc","dcs","csi","esc","bad","bel","c0","keypad","mok","resize","key","mouse">>

\* "wide", "tall": beyond what fits seven, eight or nine bits, one way
Sizes == IOEnv.SIZES
Widths == CASE Sizes = "large" -> {20, 33, 80}
            [] Sizes = "wide" -> {81, 127, 128, 129, 132, 240, 255, 256, 257, 300, 520}
            [] Sizes = "tall" -> {1, 2, 4, 6}
            [] OTHER -> {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 18}
Heights == CASE Sizes = "large" -> {10, 24}
             [] Sizes = "wide" -> {1, 2, 3}
             [] Sizes = "tall" -> {25, 60, 127, 128, 130, 255, 256, 257, 300}
             [] OTHER -> {1, 2, 3, 4, 5, 6}
Small == Sizes \notin {"large", "wide", "tall"}
PickW(k) == IF Small /\ Pct(k) <= 55 THEN Pick(k, 3..7) ELSE Pick(k, Widths)
PickH(k) == IF Small /\ Pct(k) <= 55 THEN Pick(k, 2..4) ELSE Pick(k, Heights)

--------------------------------------------------------------------------
Emit(a, b, lg, m) ==
  IF m < DEPTH THEN TRUE
  ELSE AppendLine(ToJson([w |-> size0[1], h |-> size0[2], buf |-> Buf, mode |-> Mode, profile |-> Profile, legal |-> IF Legal THEN 1 ELSE 0,
                         steps |-> lg, trail |-> Trail(b)]), OutFile)

--------------------------------------------------------------------------
Init ==
  /\ n = 0
  /\ \E w \in Widths, h \in Heights :
       /\ t = NewTerminal(w, h, Buf, Mode)
       /\ size0 = <<w, h>>
  /\ prev = t
  /\ tok = [k |-> "none", b |-> <<>>, z |-> <<>>]
  /\ log = <<>>
  /\ rest = <<>>

\* does the buffer implementation matter for this input?  (NOMID: such input
\* is replaced by a cursor motion)
NoMid == IOEnv.NOMID = "1"
Mid(k) == k.k # "resize" /\ k.k \notin InputKinds /\
  [Feed(Fresh(t), k.b) EXCEPT !.buf = "x"] # [Feed([Fresh(t) EXCEPT !.buf = "grid"], k.b) EXCEPT !.buf = "x"]
Home == [k |-> "goto", b |-> <<27, 91, 72>>, z |-> <<>>]

(* Now and then a sequence or character arrives in two parts, with the     *)
(* user's events or a new size in between: "part", then the kind itself    *)
(* with z = <<1>>.                                                         *)
SplitPct == CASE Profile \in {"all", "resize", "keys", "mouse"} -> 10 [] Profile \in {"kb", "kbdeep"} -> 0 [] OTHER -> 3
Splittable(k) ==
  /\ k.z = <<>> /\ t.p = Ground /\ Len(k.b) > 1
  /\ \/ k.b[1] = 27 /\ k.k \notin {"st"}
     \/ k.k = "text" /\ Mode = "rune" /\ IOEnv.NOMID # "1" /\ k.b[1] > 127 /\ Len(k.b) = NeedOf(k.b[1])
CallKinds == CASE Profile = "resize" -> <<"resize">> [] Profile = "keys" -> <<"key">> [] Profile = "mouse" -> <<"mouse">>
               [] OTHER -> <<"resize", "key", "mouse">>

Call(kind) ==
  CASE kind = "resize" -> [k |-> kind, b |-> <<>>, z |-> <<PickW(n), PickH(n)>>]
    [] kind = "key"    -> [k |-> kind, b |-> <<>>, z |-> KeyZ(n)]
    [] OTHER           -> [k |-> kind, b |-> <<>>, z |-> MouseZ(n)]

Do(k) ==
  /\ tok' = k
  /\ prev' = t
  /\ t' = Apply(t, k)
  /\ n' = n + 1
  /\ log' = Append(log, Image(t, t', k))
  /\ Emit(t, t', log', n')
  /\ UNCHANGED size0

Step ==
  /\ n < DEPTH /\ rest = <<>>
  /\ \E kind \in {IF t.p.s \in {"osc", "dcs"} /\ Pct(n) <= 70 THEN "st" ELSE PickSeq(n, Mix)} :
       \E k0 \in {IF kind \in {"resize", "key", "mouse"} THEN Call(kind)
                 ELSE [k |-> IF t.p.s \in {"osc", "dcs"} THEN t.p.s ELSE Name(kind),
                       b |-> TokenOf(n, kind), z |-> <<>>]} :
       \E k \in {IF NoMid /\ Mid(k0) THEN Home ELSE k0} :
       \E c \in {IF Pct(n) <= SplitPct /\ Splittable(k) THEN Pick(n, 1..Len(k.b) - 1) ELSE 0} :
         IF c = 0 THEN Do(k) /\ UNCHANGED rest
         ELSE /\ Do([k |-> "part", b |-> SubSeq(k.b, 1, c), z |-> <<>>])
              /\ rest' = <<[k |-> k.k, b |-> SubSeq(k.b, c + 1, Len(k.b)), z |-> <<1>>]>>

Between ==
  /\ n < DEPTH /\ rest # <<>>
  /\ \E d \in {Pct(n)} : \E kind \in {PickSeq(n, CallKinds)} :
       IF d <= 60 THEN \E k \in {Call(kind)} : Do(k) /\ UNCHANGED rest
       ELSE Do(IF NoMid /\ Mid(rest[1]) THEN [rest[1] EXCEPT !.b = <<24>>] ELSE rest[1]) /\ rest' = <<>>

Next == Step \/ Between
Spec == Init /\ [][Next]_vars

TypeOK == TermOK(t)
C02 == P02(prev, tok, t)
C03 == P03(prev, tok, t)
C04 == P04(prev, tok, t)
C05 == P05(prev, tok, t)
C06 == P06(prev, tok, t)
C07 == P07(prev, tok, t)
C08 == P08(prev, tok, t)
C09 == P09(prev, tok, t)
C10 == P10(prev, tok, t)
C11 == P11(t)
C12 == P12(prev, tok, t)
C13 == P13(prev, tok, t)
C14 == P14(prev, tok, t)
C17 == P17(prev, tok, t)
C18 == P18(prev, tok, t)
C19 == P19(prev, tok, t)
C20 == P20(prev, tok, t)
=============================================================================

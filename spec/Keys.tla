-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* The keyboard side of the terminal.                                      *)
(*                                                                         *)
(* State: the keyboard configuration the application selected (the Kitty   *)
(* progressive-enhancement flags of the active screen, the level of        *)
(* modifyOtherKeys, application-cursor mode).  A key event maps, in that   *)
(* configuration, to the bytes written to the application.                 *)
(*                                                                         *)
(* Enc is the encoder; Dec is a decoder written from the other direction   *)
(* (tables of keyboard-protocol.rst, sequence -> key).  The invariants say *)
(* that decoding inverts encoding, and state the rules of C12.             *)
(*                                                                         *)
(* Characters and bytes are code points; a "sequence" is a tuple of code   *)
(* points, UTF-8 encoded on the wire.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

------------------------------------------------------------------------------
(* Modifier bits, event types, enhancement flags *)
mShift == 1   mAlt == 2   mCtrl == 4   mSuper == 8   mHyper == 16   mMeta == 32
mCaps == 64   mNum == 128
Press == 1   Repeat == 2   Release == 3

\* x has the bit b (a power of two)
B(x, b) == (x \div b) % 2 = 1
NoLocks(m) == m % 64
Blocking(m) == (m % 64) \div 2 # 0        \* alt, ctrl, super, hyper or meta

fDisambiguate(f) == B(f, 1)
fEvents(f)       == B(f, 2)
fAlternates(f)   == B(f, 4)
fAllKeys(f)      == B(f, 8)
fText(f)         == B(f, 16)

------------------------------------------------------------------------------
(* Key codes: their position in the API's enumeration *)
kRune == 0  kUp == 1  kDown == 2  kRight == 3  kLeft == 4  kHome == 5  kEnd == 6
kInsert == 7  kDelete == 8  kPageUp == 9  kPageDown == 10
kBackspace == 11  kTab == 12  kEnter == 13  kEscape == 14
kF1 == 15  kF2 == 16 kF3 == 17  kF4 == 18  kF5 == 19  kF12 == 26  kF13 == 27  kF35 == 49
kCapsLock == 50  kScrollLock == 51  kNumLock == 52  kPrintScreen == 53  kPause == 54  kMenu == 55
kKP0 == 56  kKP9 == 65  kKPDecimal == 66  kKPEnter == 71  kKPSeparator == 73
kKPLeft == 74  kKPBegin == 84
kMedia == 85  kVolumeMute == 97  kLeftShift == 98  kISO5 == 111
Codes == 0..111

IsModifierKey(c) == (c \in {kCapsLock, kScrollLock, kNumLock}) \/ c \in kLeftShift..kISO5
IsKeypad(c) == c \in kKP0..kKPBegin

\* the key a keypad key stands for: <<code, rune>>
KPChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 46, 47, 42, 45, 43, 0, 61, 44>>
KPKeys == <<kLeft, kRight, kUp, kDown, kPageUp, kPageDown, kHome, kEnd, kInsert, kDelete>>
KPEquiv(c) ==
  IF c = kKPEnter THEN <<kEnter, 0>>
  ELSE IF c <= kKPSeparator THEN <<kRune, KPChars[c - kKP0 + 1]>>
  ELSE IF c = kKPBegin THEN <<kRune, 53>>
  ELSE <<KPKeys[c - kKPLeft + 1], 0>>

------------------------------------------------------------------------------
(* Case mapping of the sampled characters: <<lower, upper>> *)
CasePairs == { <<223 + k, 191 + k>> : k \in (1..23) \cup (25..31) } \cup
   { <<255, 376>>, <<257, 256>>, <<328, 327>>, <<963, 931>>, <<969, 937>>, <<945, 913>>, <<1076, 1044>>, <<1078, 1046>>, <<1081, 1049>>, <<1377, 1329>>,
     <<7841, 7840>>, <<65345, 65313>>, <<66600, 66560>> }
CaseLow == { p[1] : p \in CasePairs }
CaseUp  == { p[2] : p \in CasePairs }
\* characters whose upper case does not map back: sharp s has none, dotless i, long s, final sigma, micro, Kelvin, title-case DZ
LowOnly == [ x \in {305, 383, 962, 181} |-> CASE x = 305 -> 73 [] x = 383 -> 83 [] x = 962 -> 931 [] x = 181 -> 924 ]
UpOnly  == [ x \in {8490, 304} |-> CASE x = 8490 -> 107 [] x = 304 -> 105 ]
UpTab  == [ x \in CaseLow |-> (CHOOSE p \in CasePairs : p[1] = x)[2] ]
LowTab == [ x \in CaseUp |-> (CHOOSE p \in CasePairs : p[2] = x)[1] ]
Upper(r) == IF r \in 97..122 THEN r - 32 ELSE IF r \in CaseLow THEN UpTab[r] ELSE IF r \in DOMAIN LowOnly THEN LowOnly[r] ELSE IF r = 454 THEN 452 ELSE IF r = 453 THEN 452 ELSE r
Lower(r) == IF r \in 65..90 THEN r + 32 ELSE IF r \in CaseUp THEN LowTab[r] ELSE IF r \in DOMAIN UpOnly THEN UpOnly[r] ELSE IF r = 452 THEN 454 ELSE IF r = 453 THEN 454 ELSE r
\* the Kitty protocol names a key by its unshifted character
Unshifted(r) == IF Upper(Lower(r)) = r THEN Lower(r) ELSE r

IsControl(r) == r < 32 \/ r \in 127..159

------------------------------------------------------------------------------
(* Numbers and sequences *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
DigTab == [ n \in 0..300 |-> Digits(n) ]
D(n) == IF n <= 300 THEN DigTab[n] ELSE Digits(n)

ESC == 27
CSI == <<27, 91>>
SEMI == <<59>>
COLON == <<58>>

RECURSIVE JoinColon(_)
JoinColon(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN D(s[1]) ELSE D(s[1]) \o COLON \o JoinColon(Tail(s))

\* a key event: [code, rune, mod, ev, shifted, base, text]
\* the character a text key stands for in its shift state
TextOf(e) == IF ~B(e.mod, mShift) THEN e.rune
             ELSE IF e.shifted # 0 THEN e.shifted
             ELSE IF ~B(e.mod, mCaps) THEN Upper(e.rune) ELSE e.rune

------------------------------------------------------------------------------
(* Legacy encoding (xterm) *)

CtrlTab == [ r \in (97..122) \cup (65..90) \cup {32, 64, 91, 92, 93, 94, 95, 63, 47, 126} \cup (50..56) |->
   CASE r \in 97..122 -> r - 96 [] r \in 65..90 -> r - 64
     [] r \in {32, 64, 50} -> 0 [] r \in {91, 51} -> 27 [] r \in {92, 52} -> 28 [] r \in {93, 53} -> 29
     [] r \in {94, 126, 54} -> 30 [] r \in {95, 47, 55} -> 31 [] r \in {63, 56} -> 127 ]

ModP(m) == D(1 + m)
LCursor(final, m, app) == IF m = 0 THEN (IF app THEN <<27, 79, final>> ELSE <<27, 91, final>>) ELSE CSI \o <<49, 59>> \o ModP(m) \o <<final>>
LTilde(n, m) == IF m = 0 THEN CSI \o D(n) \o <<126>> ELSE CSI \o D(n) \o SEMI \o ModP(m) \o <<126>>
LFn(final, m) == IF m = 0 THEN <<27, 79, final>> ELSE CSI \o <<49, 59>> \o ModP(m) \o <<final>>
MOK(c, m) == CSI \o <<50, 55, 59>> \o ModP(m) \o SEMI \o D(c) \o <<126>>
AltP(m) == IF B(m, mAlt) THEN <<27>> ELSE <<>>

LRune(r, m, mok) ==
  IF r = 0 THEN <<>>
  ELSE IF mok > 0 /\ m # 0 /\ (m = mShift => (mok >= 2 /\ r = 32)) /\ (mok >= 2 \/ m # mCtrl \/ r \notin DOMAIN CtrlTab) THEN MOK(r, m)
  ELSE IF B(m, mCtrl) /\ r \in DOMAIN CtrlTab THEN AltP(m) \o <<CtrlTab[r]>>
  ELSE AltP(m) \o <<r>>

\* key 11..14: the C0 keys
LC0(c, m, mok) ==
  IF m = 0 THEN << CASE c = kBackspace -> 127 [] c = kTab -> 9 [] c = kEnter -> 13 [] c = kEscape -> 27 >>
  ELSE IF c = kTab /\ m = mShift THEN <<27, 91, 90>>
  ELSE IF mok > 0 THEN MOK(CASE c = kBackspace -> 127 [] c = kTab -> 9 [] c = kEnter -> 13 [] c = kEscape -> 27, m)
  ELSE AltP(m) \o (CASE c = kBackspace -> (IF B(m, mCtrl) THEN <<8>> ELSE <<127>>)
                     [] c = kTab -> (IF B(m, mShift) THEN <<27, 91, 90>> ELSE <<9>>)
                     [] c = kEnter -> <<13>> [] c = kEscape -> <<27>>)

TildeNum == [ c \in (7..10) \cup (kF5..kF12) \cup {kMenu} |->
   CASE c = kInsert -> 2 [] c = kDelete -> 3 [] c = kPageUp -> 5 [] c = kPageDown -> 6
     [] c = 19 -> 15 [] c = 20 -> 17 [] c = 21 -> 18 [] c = 22 -> 19 [] c = 23 -> 20 [] c = 24 -> 21 [] c = 25 -> 23 [] c = 26 -> 24
     [] c = kMenu -> 29 ]
CursorFinal == <<65, 66, 67, 68, 72, 70>>       \* Up Down Right Left Home End
FnFinal == <<80, 81, 82, 83>>                   \* F1 .. F4

\* the number of a functional key in its CSI u form
UNum(c) == CASE c = kEscape -> 27 [] c = kEnter -> 13 [] c = kTab -> 9 [] c = kBackspace -> 127
             [] c \in kCapsLock..kMenu -> 57358 + (c - kCapsLock)
             [] c \in kF13..kF35 -> 57376 + (c - kF13)
             [] c \in kKP0..kISO5 -> 57399 + (c - kKP0)

RECURSIVE Legacy(_, _, _)
Legacy(e, mok, app) ==
  LET m == NoLocks(e.mod)
      c == e.code
  IN IF IsKeypad(c)
     THEN LET q == KPEquiv(c) IN Legacy([e EXCEPT !.code = q[1], !.rune = IF q[1] \in {kRune, kEnter} THEN q[2] ELSE @, !.mod = m], mok, app)
     ELSE CASE c = kRune -> LRune(TextOf(e), m, mok)
            [] c \in 1..6 -> LCursor(CursorFinal[c], m, app)
            [] c \in 11..14 -> LC0(c, m, mok)
            [] c = kF3 /\ m # 0 -> LTilde(13, m)
            [] c \in 15..18 -> LFn(FnFinal[c - 14], m)
            [] c \in DOMAIN TildeNum -> LTilde(TildeNum[c], m)
            [] OTHER -> CSI \o D(UNum(c)) \o (IF m = 0 THEN <<>> ELSE SEMI \o ModP(m)) \o <<117>>

------------------------------------------------------------------------------
(* Kitty encoding *)

NONE == <<0>>     \* "no Kitty form": the legacy bytes are sent

NotPress(e, f) == fEvents(f) /\ e.ev # Press
KMod(e, f) == IF NotPress(e, f) THEN D(1 + e.mod) \o COLON \o D(e.ev) ELSE IF e.mod = 0 THEN <<>> ELSE D(1 + e.mod)
KCode(n, e, f) ==
  LET sh == IF fAlternates(f) /\ B(e.mod, mShift) THEN e.shifted ELSE 0
      ba == IF fAlternates(f) THEN e.base ELSE 0
  IN D(n) \o (IF sh # 0 THEN COLON \o D(sh) ELSE IF ba # 0 THEN COLON ELSE <<>>) \o (IF ba # 0 THEN COLON \o D(ba) ELSE <<>>)
KText(e, f) ==
  IF ~(fAllKeys(f) /\ fText(f)) THEN <<>>
  ELSE LET t == IF e.text # <<>> THEN e.text
                ELSE IF e.code = kRune /\ e.rune # 0 /\ ~Blocking(e.mod) /\ e.ev # Release THEN <<TextOf(e)>> ELSE <<>>
           Printable(r) == ~IsControl(r)
       IN JoinColon(SelectSeq(t, Printable))
KU(n, e, f, txt) ==
  LET m == KMod(e, f) IN
  CSI \o KCode(n, e, f) \o (IF m # <<>> THEN SEMI \o m ELSE IF txt # <<>> THEN <<59, 49>> ELSE <<>>)
      \o (IF txt # <<>> THEN SEMI \o txt ELSE <<>>) \o <<117>>
KOne(final, e, f) == LET m == KMod(e, f) IN IF m = <<>> THEN CSI \o <<final>> ELSE CSI \o <<49, 59>> \o m \o <<final>>
KTilde(n, e, f) == LET m == KMod(e, f) IN CSI \o D(n) \o (IF m = <<>> THEN <<>> ELSE SEMI \o m) \o <<126>>

RECURSIVE Kitty(_, _)
Kitty(e, f) ==
  LET c == e.code
      q == IF IsKeypad(c) THEN KPEquiv(c) ELSE <<0, 0>>
      qe == [e EXCEPT !.code = q[1], !.rune = IF q[1] \in {kRune, kEnter} THEN q[2] ELSE @]
      kpText == IsKeypad(c) /\ q[1] = kRune /\ c # kKPBegin
      ek == IF kpText /\ ~fAllKeys(f) THEN [e EXCEPT !.mod = NoLocks(@)] ELSE e
  IN IF e.ev = Release /\ ~fEvents(f) THEN NONE
     ELSE IF IsKeypad(c) /\ ~fAllKeys(f) /\ (~fDisambiguate(f) \/ (kpText /\ ~Blocking(e.mod))) THEN Kitty(qe, f)
     ELSE CASE c = kRune ->
                 IF e.rune = 0 THEN NONE
                 ELSE IF fAllKeys(f) THEN KU(Unshifted(e.rune), e, f, KText(e, f))
                 ELSE IF (fDisambiguate(f) \/ NotPress(e, f)) /\ Blocking(e.mod)
                      THEN KU(Unshifted(e.rune), [e EXCEPT !.mod = NoLocks(@)], f, <<>>)
                 ELSE NONE
            [] c \in 1..6 -> KOne(CursorFinal[c], e, f)
            [] c = kEscape -> IF fAllKeys(f) \/ fDisambiguate(f) \/ NotPress(e, f) THEN KU(27, e, f, KText(e, f)) ELSE NONE
            [] c \in 11..13 -> IF fAllKeys(f) THEN KU(UNum(c), e, f, KText(e, f)) ELSE NONE
            [] c = kF3 -> KTilde(13, e, f)
            [] c \in 15..18 -> KOne(FnFinal[c - 14], e, f)
            [] c \in DOMAIN TildeNum /\ c # kMenu -> KTilde(TildeNum[c], e, f)
            [] c = kKPBegin -> KOne(69, e, f)
            [] OTHER -> KU(UNum(c), ek, f, KText(ek, f))

(* What SendKey writes for event e under configuration k = [f, mok, app] *)
Enc(e, k) ==
  IF IsModifierKey(e.code) /\ ~fAllKeys(k.f) THEN <<>>
  ELSE LET s == IF k.f # 0 THEN Kitty(e, k.f) ELSE NONE
       IN IF s # NONE THEN s
          ELSE IF e.ev = Release THEN <<>>
          ELSE Legacy(e, IF k.f = 0 THEN k.mok ELSE 0, k.app)

------------------------------------------------------------------------------
(* The decoder, from the receiving side *)

IsDigit(c) == c \in 48..57
RECURSIVE NumVal(_, _)
NumVal(s, acc) == IF s = <<>> THEN acc ELSE NumVal(Tail(s), acc * 10 + (s[1] - 48))
RECURSIVE Split(_, _, _, _)
Split(s, sep, cur, out) == IF s = <<>> THEN Append(out, cur)
                           ELSE IF s[1] = sep THEN Split(Tail(s), sep, <<>>, Append(out, cur))
                           ELSE Split(Tail(s), sep, Append(cur, s[1]), out)
SubParams(p) == LET parts == Split(p, 58, <<>>, <<>>) IN [ i \in DOMAIN parts |-> NumVal(parts[i], 0) ]

\* A whole control sequence: ESC [ params final, nothing else in it
IsCSI(s) == /\ Len(s) >= 3 /\ s[1] = 27 /\ s[2] = 91
            /\ \A i \in 3..Len(s) - 1 : s[i] \in 48..59
            /\ s[Len(s)] \in 64..126
Params(s) == LET body == SubSeq(s, 3, Len(s) - 1)
                 ps == Split(body, 59, <<>>, <<>>)
             IN [ i \in DOMAIN ps |-> SubParams(ps[i]) ]
P(ps, i, j, dflt) == IF i > Len(ps) THEN dflt ELSE IF j > Len(ps[i]) THEN dflt ELSE IF ps[i][j] = 0 THEN dflt ELSE ps[i][j]

\* functional key definitions of keyboard-protocol.rst: <<number, final, key>>
FnDefs == << <<27, 117, kEscape>>, <<13, 117, kEnter>>, <<9, 117, kTab>>, <<127, 117, kBackspace>>, <<2, 126, kInsert>>, <<3, 126, kDelete>>,
   <<1, 68, kLeft>>, <<1, 67, kRight>>, <<1, 65, kUp>>, <<1, 66, kDown>>, <<5, 126, kPageUp>>, <<6, 126, kPageDown>>, <<1, 72, kHome>>, <<1, 70, kEnd>>,
   <<57358, 117, kCapsLock>>, <<57359, 117, kScrollLock>>, <<57360, 117, kNumLock>>, <<57361, 117, kPrintScreen>>, <<57362, 117, kPause>>, <<57363, 117, kMenu>>,
   <<29, 126, kMenu>>,
   <<1, 80, 15>>, <<1, 81, 16>>, <<13, 126, 17>>, <<1, 83, 18>>, <<15, 126, 19>>, <<17, 126, 20>>, <<18, 126, 21>>, <<19, 126, 22>>, <<20, 126, 23>>,
   <<21, 126, 24>>, <<23, 126, 25>>, <<24, 126, 26>>, <<1, 69, kKPBegin>>, <<1, 90, kTab>> >>
FnKeys == { <<d[1], d[2]>> : d \in { FnDefs[i] : i \in 1..Len(FnDefs) } }
FnKey == [ q \in FnKeys |-> (CHOOSE i \in 1..Len(FnDefs) : FnDefs[i][1] = q[1] /\ FnDefs[i][2] = q[2]) ]
\* 57376 F13 .. 57398 F35, 57399 KP_0 .. 57427 KP_BEGIN, 57428 MEDIA_PLAY .. 57440 MUTE_VOLUME, 57441 LEFT_SHIFT .. 57454 ISO_LEVEL5_SHIFT
KeyOf(n, final) ==
  IF <<n, final>> \in FnKeys THEN [code |-> FnDefs[FnKey[<<n, final>>]][3], rune |-> 0]
  ELSE IF final # 117 THEN [code |-> -1, rune |-> 0]
  ELSE IF n \in 57376..57398 THEN [code |-> n - 57349, rune |-> 0]
  ELSE IF n \in 57399..57454 THEN [code |-> n - 57343, rune |-> 0]
  ELSE [code |-> kRune, rune |-> n]

\* decode a control sequence: [code, rune, mod, ev, shifted, base, text]
DecCSI(s) ==
  LET ps == Params(s)
      fin == s[Len(s)]
      n == P(ps, 1, 1, 1)
      mok == n = 27 /\ fin = 126
      key == IF mok THEN (LET c == P(ps, 3, 1, 0) IN
                          CASE c = 9 -> [code |-> kTab, rune |-> 0] [] c = 13 -> [code |-> kEnter, rune |-> 0] [] c = 27 -> [code |-> kEscape, rune |-> 0]
                            [] c = 127 -> [code |-> kBackspace, rune |-> 0] [] OTHER -> [code |-> kRune, rune |-> c])
             ELSE KeyOf(n, fin)
  IN [code |-> key.code, rune |-> key.rune, mod |-> IF fin = 90 THEN 1 ELSE P(ps, 2, 1, 1) - 1, ev |-> P(ps, 2, 2, 1), shifted |-> P(ps, 1, 2, 0), base |-> P(ps, 1, 3, 0),
      text |-> IF Len(ps) >= 3 /\ ~mok THEN ps[3] ELSE <<>>, mok |-> mok]

------------------------------------------------------------------------------
(* What must hold of s = Enc(e, k) *)

\* Keys a configuration merges on purpose (no disambiguation): a keypad key counts as its equivalent
SameKey(e, k, d) ==
  LET q == IF IsKeypad(e.code) THEN KPEquiv(e.code) ELSE <<e.code, e.rune>>
      merged == ~fAllKeys(k.f) /\ (~fDisambiguate(k.f) \/ (q[1] = kRune /\ e.code # kKPBegin /\ ~Blocking(e.mod)))
      c == IF merged THEN q[1] ELSE e.code
      r == IF IsKeypad(e.code) THEN q[2] ELSE e.rune
      re == [e EXCEPT !.rune = r]
  IN /\ d.code = c
     /\ c = kRune => d.rune \in (IF d.mok THEN {TextOf(re)} ELSE {Unshifted(r)})

\* Printable characters: those a text key can have (the protocol uses the private use area for functional keys)
Printable(r) == r >= 32 /\ ~IsControl(r) /\ r \notin 57344..63743

KeyInv(e, k, s) ==
  LET printable == e.code = kRune => Printable(e.rune)
      d == DecCSI(s)
      anyKitty == k.f # 0
      locksLost == (k.f = 0) \/ (~fAllKeys(k.f) /\ (e.code = kRune \/ (IsKeypad(e.code) /\ KPEquiv(e.code)[1] = kRune
                                                                    /\ (e.code # kKPBegin \/ ~fDisambiguate(k.f)))))
  IN printable =>
     \* a release is reported only on request, and then by an escape code
     /\ (e.ev = Release /\ ~fEvents(k.f)) => s = <<>>
     /\ (e.ev = Release /\ s # <<>>) => IsCSI(s) /\ d.ev = Release
     \* modifier keys alone are reported only with "report all keys"
     /\ IsModifierKey(e.code) => (s # <<>> <=> fAllKeys(k.f) /\ (e.ev = Release => fEvents(k.f)))
     \* every other press is reported
     /\ (e.ev = Press /\ ~IsModifierKey(e.code) /\ (e.code = kRune => e.rune # 0)) => s # <<>>
     \* with "report all keys" everything is an escape code
     /\ (fAllKeys(k.f) /\ s # <<>>) => IsCSI(s)
     \* no key looks like a cursor position report
     /\ s # <<>> => ~(IsCSI(s) /\ s[Len(s)] = 82)
     \* a control sequence decodes to the key, its modifiers and its event type
     /\ IsCSI(s) =>
          /\ SameKey(e, k, d)
          /\ (d.mod = (IF locksLost THEN NoLocks(e.mod) ELSE e.mod)) \/ (s[Len(s)] = 90 /\ B(e.mod, mShift) /\ ~B(e.mod, mAlt))
          /\ d.ev = (IF fEvents(k.f) /\ s[Len(s)] # 90 THEN e.ev ELSE Press)
          /\ d.shifted = (IF fAlternates(k.f) /\ s[Len(s)] = 117 /\ B(e.mod, mShift) THEN e.shifted ELSE 0)
          /\ d.base = (IF fAlternates(k.f) /\ s[Len(s)] = 117 THEN e.base ELSE 0)
          /\ d.text # <<>> => (fText(k.f) /\ fAllKeys(k.f) /\ (e.text = <<>> => d.text = <<TextOf(e)>>))
          /\ (anyKitty /\ d.mok) => FALSE
     \* ESC O x is a cursor or function key without modifiers
     /\ (Len(s) = 3 /\ s[1] = 27 /\ s[2] = 79) =>
          /\ NoLocks(e.mod) = 0 /\ k.f = 0
          /\ LET c == IF IsKeypad(e.code) THEN KPEquiv(e.code)[1] ELSE e.code
             IN s[3] = CASE c = kUp -> 65 [] c = kDown -> 66 [] c = kRight -> 67 [] c = kLeft -> 68 [] c = kHome -> 72 [] c = kEnd -> 70
                         [] c = 15 -> 80 [] c = 16 -> 81 [] c = 17 -> 82 [] c = 18 -> 83 [] OTHER -> 0
     \* otherwise: at most one ESC prefix, exactly for Alt, then one character
     /\ (s # <<>> /\ ~IsCSI(s) /\ ~(Len(s) = 3 /\ s[2] = 79 /\ s[1] = 27)) =>
          LET tabSeq == Len(s) = 4 /\ SubSeq(s, 1, 4) = <<27, 27, 91, 90>>
              alt == IF tabSeq THEN TRUE ELSE Len(s) = 2 /\ s[1] = 27
              q == IF IsKeypad(e.code) THEN KPEquiv(e.code) ELSE <<e.code, e.rune>>
              r == [e EXCEPT !.rune = q[2]]
          IN /\ alt = B(e.mod, mAlt)
             /\ q[1] \in {kRune, kBackspace, kTab, kEnter, kEscape}
             /\ tabSeq => (q[1] = kTab /\ B(e.mod, mShift))
             /\ ~tabSeq => Len(s) = (IF alt THEN 2 ELSE 1)
             /\ (q[1] = kRune /\ ~B(e.mod, mCtrl)) => s[Len(s)] = TextOf(IF IsKeypad(e.code) THEN [r EXCEPT !.mod = NoLocks(@)] ELSE r)
             /\ (q[1] = kEnter) => s[Len(s)] = 13
             /\ (q[1] = kEscape) => s[Len(s)] = 27
     \* disambiguation: apart from text, Enter, Tab and Backspace every key is an escape code
     /\ (fDisambiguate(k.f) /\ s # <<>> /\ ~(e.code = kRune /\ ~Blocking(e.mod)) /\ e.code \notin {kEnter, kTab, kBackspace}
         /\ ~(IsKeypad(e.code) /\ KPEquiv(e.code)[1] = kRune /\ e.code # kKPBegin /\ ~Blocking(e.mod))) => IsCSI(s)
=============================================================================

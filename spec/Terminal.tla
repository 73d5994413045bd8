------------------------------ MODULE Terminal ------------------------------
(* The whole terminal as a deterministic byte-driven machine.              *)
(*                                                                         *)
(* Terminal record:                                                        *)
(*  buf    "span" | "grid"    which buffer implementation                  *)
(*  mode   "rune" | "graph"   text tokenisation                            *)
(*  scr    <<main, alt>>      the two buffers,  act \in {1,2} the active   *)
(*  st     current rendition (global)                                      *)
(*  vf     <<blink, show, focus, paste, appcursor, appkeypad>>             *)
(*  vi     <<mousemode, mouseenc, modifyOtherKeys>>                        *)
(*  vs     <<title, directory, file>> byte strings                         *)
(*  kb     <<main, alt>> each [f, stack] (keyboard flags)                  *)
(*  p      parser state                                                    *)
(*  out    reply bytes of this step       bell   number of bells           *)
(*  gc     grapheme cluster being collected; gm the last one was a joiner,   *)
(*         gl an unpaired regional indicator                               *)
(*  ev     view notifications of this step, in order                       *)
(*  sback  rows scrolled off the top of the main screen in this step       *)
EXTENDS TermScreen, TermText, TermGraph, SequencesExt

Ground == [s |-> "g", b |-> <<>>, u |-> <<>>]
MaxParam == 16777215

NewTerminal(w, h, buf, mode) ==
  [buf |-> buf, mode |-> mode,
   scr |-> <<NewScreen(w, h, StyleDefault), NewScreen(w, h, StyleDefault)>>, act |-> 1,
   st |-> StyleDefault,
   vf |-> [i \in 1..6 |-> FALSE], vi |-> <<0, 0, 0>>, vs |-> << <<>>, <<>>, <<>> >>,
   kb |-> <<[f |-> 0, stack |-> <<>>], [f |-> 0, stack |-> <<>>]>>,
   p |-> Ground, gc |-> <<>>, gm |-> FALSE, gl |-> FALSE,
   out |-> <<>>, bell |-> 0, ev |-> <<>>, sback |-> <<>>]

Cur(t) == t.scr[t.act]
TW(t) == Wid(t.scr[1])
TH(t) == Hei(t.scr[1])

\* install the new active screen; rows off the top count only on the main screen
SetCur(t, s) ==
  [t EXCEPT !.scr[t.act] = [s EXCEPT !.off = <<>>],
            !.sback = IF t.act = 1 THEN @ \o s.off ELSE @]

Reply(t, bytes) == [t EXCEPT !.out = @ \o bytes]
SetFlag(t, i, v) == [t EXCEPT !.vf[i] = v, !.ev = Append(@, <<"f", i, IF v THEN 1 ELSE 0>>)]
SetInt(t, i, v)  == [t EXCEPT !.vi[i] = v, !.ev = Append(@, <<"i", i, v>>)]
SetStr(t, i, v)  == [t EXCEPT !.vs[i] = v, !.ev = Append(@, <<"s", i>> \o v)]

--------------------------------------------------------------------------
(* Text.                                                                   *)
WriteCp(t, c) == SetCur(t, WriteChar(Cur(t), <<c>>, RuneWidth(c), t.st, t.buf))

(* A complete grapheme cluster.  A fragment (extenders only, what follows a *)
(* lone joiner, the second regional indicator of a pair) joins the cell left *)
(* of the cursor when that keeps it a single cluster of the same width.     *)
(* An extender that cannot join is dropped, anything else is written.       *)
Joined(t, cps) ==       \* <<>> or <<the screen after joining>>
  LET s == Cur(t)
      row == s.rows[s.cy]
      b == IF s.cx > 1 THEN Base(row, s.cx - 1) ELSE 0
  IN IF b = 0 THEN <<>>
     ELSE LET txt == row[b].t \o cps IN
          IF OneCluster(txt) /\ ClusterWidth(txt) = row[b].w
          THEN <<[s EXCEPT !.rows[s.cy][b].t = txt]>> ELSE <<>>

WriteCluster(t0, cps) ==
  LET ext == ExtendOnly(cps)
      ri  == Len(cps) = 1 /\ IsRI(cps[1])
      frag == ext \/ t0.gm \/ (ri /\ t0.gl)
      t == [t0 EXCEPT !.gm = IsZWJ(cps), !.gl = ri /\ ~frag]
      j == IF frag THEN Joined(t, cps) ELSE <<>>
  IN IF j # <<>> THEN SetCur(t, j[1])
     ELSE IF ext THEN t
     ELSE SetCur(t, WriteChar(Cur(t), cps, ClusterWidth(cps), t.st, t.buf))

FlushCluster(t) ==
  IF t.gc = <<>> THEN t ELSE [WriteCluster(t, t.gc) EXCEPT !.gc = <<>>]

Text(t, c) ==
  IF t.mode = "rune" THEN WriteCp(t, c)
  ELSE IF t.gc # <<>> /\ ~BreakBetween(t.gc, c)
       THEN [t EXCEPT !.gc = Append(@, c)]
       ELSE [FlushCluster(t) EXCEPT !.gc = <<c>>]

RECURSIVE BadBytes(_, _)
BadBytes(t, n) == IF n = 0 THEN t ELSE BadBytes(Text(t, Replacement), n - 1)

--------------------------------------------------------------------------
(* C0 controls.                                                            *)
Control(t, b) ==
  LET s == Cur(t) IN
  CASE b = 7         -> [t EXCEPT !.bell = @ + 1]
    [] b = 8 \/ b = 127 -> SetCur(t, MoveBy(s, -1, 0))
    [] b = 9         -> SetCur(t, MoveTo(s, ((s.cx - 1) \div 8 + 1) * 8 + 1, s.cy))
    [] b = 10        -> SetCur(t, Index([s EXCEPT !.cx = 1], t.st))
    [] b = 12        -> SetCur(t, Index(s, t.st))
    [] b = 13        -> SetCur(t, [s EXCEPT !.cx = 1])
    [] OTHER         -> t

--------------------------------------------------------------------------
(* CSI.  The body is every byte 0x20-0x3F between "ESC [" and the final.   *)
IsDigit(b) == b \in 48..57
PrivPrefix == {60, 61, 62, 63}

\* digits and semicolons -> parameters, -1 for an omitted one
RECURSIVE ParseParams(_, _, _, _)
ParseParams(bs, i, cur, acc) ==
  IF i > Len(bs) THEN (IF acc = <<>> /\ cur = -1 THEN <<>> ELSE Append(acc, cur))
  ELSE IF bs[i] = 59 THEN ParseParams(bs, i + 1, -1, Append(acc, cur))
  ELSE ParseParams(bs, i + 1, Min2(MaxParam, (IF cur = -1 THEN 0 ELSE cur) * 10 + (bs[i] - 48)), acc)

CsiBody(body) ==
  LET hasPre == body # <<>> /\ body[1] \in PrivPrefix
      rest   == IF hasPre THEN Tail(body) ELSE body
  IN [pre |-> IF hasPre THEN body[1] ELSE 0,
      ok  |-> \A i \in 1..Len(rest) : IsDigit(rest[i]) \/ rest[i] = 59,
      rest |-> rest]

\* parameter i, with default d when absent or omitted
Par(ps, i, d) == IF i > Len(ps) THEN d ELSE IF ps[i] = -1 THEN d ELSE ps[i]
Zeroed(ps) == [i \in 1..Len(ps) |-> IF ps[i] = -1 THEN 0 ELSE ps[i]]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

ReplyDA1   == <<27, 91, 63, 49, 59, 50, 99>>                          \* ESC [ ? 1 ; 2 c
ReplyDA2   == <<27, 91, 62, 49, 59, 52, 52, 48, 50, 59, 48, 99>>      \* ESC [ > 1 ; 4402 ; 0 c
ReplyOK    == <<27, 91, 48, 110>>                                     \* ESC [ 0 n
ReplyCPR(x, y) == <<27, 91>> \o Digits(y) \o <<59>> \o Digits(x) \o <<82>>
ReplyKitty(f)  == <<27, 91, 63>> \o Digits(f) \o <<117>>

CsiPlain(t, ps, b) ==
  LET s == Cur(t)  p1 == Par(ps, 1, 1)  st == t.st IN
  CASE b = 65 (* A *) -> SetCur(t, MoveBy(s, 0, -p1))
    [] b = 66 (* B *) -> SetCur(t, MoveBy(s, 0, p1))
    [] b = 67 (* C *) -> SetCur(t, MoveBy(s, p1, 0))
    [] b = 68 (* D *) -> SetCur(t, MoveBy(s, -p1, 0))
    [] b = 71 (* G *) -> SetCur(t, MoveTo(s, p1, s.cy))
    [] b = 100 (* d *) -> SetCur(t, MoveTo(s, s.cx, p1))
    [] b \in {72, 102} (* H f *) -> SetCur(t, MoveTo(s, Par(ps, 2, 1), p1))
    [] b = 115 (* s *) -> SetCur(t, SaveCur(s))
    [] b = 117 (* u *) -> SetCur(t, RestCur(s))
    [] b = 74 (* J *) -> SetCur(t, EraseDisplay(s, Par(ps, 1, 0), st))
    [] b = 75 (* K *) -> SetCur(t, EraseLine(s, Par(ps, 1, 0), st))
    [] b = 88 (* X *) -> SetCur(t, EraseChars(s, p1, st))
    [] b = 80 (* P *) -> SetCur(t, DeleteChars(s, p1, st))
    [] b = 76 (* L *) -> SetCur(t, InsertLines(s, p1, st))
    [] b = 77 (* M *) -> SetCur(t, DeleteLines(s, p1, st))
    [] b = 83 (* S *) -> SetCur(t, Scroll(s, s.top, s.bot, -p1, st))
    [] b = 84 (* T *) -> SetCur(t, Scroll(s, s.top, s.bot, p1, st))
    [] b = 114 (* r *) -> SetCur(t, SetMargins(s, p1, Par(ps, 2, Hei(s))))
    [] b = 109 (* m *) -> [t EXCEPT !.st = Sgr(@, Zeroed(ps))]
    [] b = 99 (* c *) -> IF Par(ps, 1, 0) = 0 THEN Reply(t, ReplyDA1) ELSE t
    [] b = 110 (* n *) -> CASE Par(ps, 1, 0) = 5 -> Reply(t, ReplyOK)
                           [] Par(ps, 1, 0) = 6 -> Reply(t, ReplyCPR(s.cx, s.cy))
                           [] OTHER -> t
    [] OTHER -> t

\* one DEC private mode
PrivMode(t, p, v) ==
  CASE p = 1    -> SetFlag(t, 5, v)
    [] p = 7    -> [t EXCEPT !.scr[t.act].wrap = v]
    [] p = 9    -> SetInt(t, 1, IF v THEN 1 ELSE 0)
    [] p = 12   -> SetFlag(t, 1, v)
    [] p = 25   -> SetFlag(t, 2, v)
    [] p = 1000 -> SetInt(t, 1, IF v THEN 2 ELSE 0)
    [] p = 1002 -> SetInt(t, 1, IF v THEN 3 ELSE 0)
    [] p = 1003 -> SetInt(t, 1, IF v THEN 4 ELSE 0)
    [] p = 1004 -> SetFlag(t, 3, v)
    [] p = 1005 -> SetInt(t, 2, IF v THEN 1 ELSE 0)
    [] p = 1006 -> SetInt(t, 2, IF v THEN 2 ELSE 0)
    [] p = 1015 -> SetInt(t, 2, IF v THEN 1 ELSE 0)
    [] p = 1049 -> [t EXCEPT !.act = IF v THEN 2 ELSE 1]
    [] p = 2004 -> SetFlag(t, 4, v)
    [] OTHER    -> t

RECURSIVE PrivModes(_, _, _, _)
PrivModes(t, ps, i, v) == IF i > Len(ps) THEN t ELSE PrivModes(PrivMode(t, ps[i], v), ps, i + 1, v)

\* the last "4[;v]" pair of CSI > ... m selects modifyOtherKeys
RECURSIVE ModifyKeys(_, _, _)
ModifyKeys(ps, i, m) ==
  IF i > Len(ps) THEN m
  ELSE ModifyKeys(ps, i + 1, IF ps[i] = 4 THEN (IF i < Len(ps) THEN ps[i+1] ELSE 0) ELSE m)

(* Kitty keyboard flags.                                                   *)
KbMax == 32
Bits(n) == {i \in 0..24 : (n \div (2 ^ i)) % 2 = 1}
RECURSIVE FromBits(_)
FromBits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2 ^ x + FromBits(S \ {x})
KbSet(k, f, m) ==
  CASE m \in {0, 1} -> [k EXCEPT !.f = f]
    [] m = 2 -> [k EXCEPT !.f = FromBits(Bits(@) \cup Bits(f))]
    [] m = 3 -> [k EXCEPT !.f = FromBits(Bits(@) \ Bits(f))]
    [] OTHER -> k
KbPush(k, f) ==
  [f |-> f, stack |-> Append(IF Len(k.stack) >= KbMax THEN Tail(k.stack) ELSE k.stack, k.f)]
KbPop(k, n0) ==
  LET n == IF n0 <= 0 THEN 1 ELSE n0  d == Len(k.stack) IN
  IF n > d THEN [f |-> 0, stack |-> <<>>]
  ELSE [f |-> k.stack[d - n + 1], stack |-> SubSeq(k.stack, 1, d - n)]
SetKb(t, k) == [t EXCEPT !.kb[t.act] = k]

Csi(t, body, b) ==
  LET c == CsiBody(body) IN
  IF ~c.ok THEN t
  ELSE LET ps == ParseParams(c.rest, 1, -1, <<>>) IN
    CASE c.pre = 0  -> CsiPlain(t, ps, b)
      [] c.pre = 63 (* ? *) ->
           CASE b = 117 -> Reply(t, ReplyKitty(t.kb[t.act].f))
             [] b \in {104, 108} -> PrivModes(t, Zeroed(ps), 1, b = 104)
             [] OTHER -> t
      [] c.pre = 62 (* > *) ->
           CASE b = 99  -> Reply(t, ReplyDA2)
             [] b = 109 -> LET m == ModifyKeys(Zeroed(ps), 1, -1) IN IF m >= 0 THEN SetInt(t, 3, m) ELSE t
             [] b = 117 -> SetKb(t, KbPush(t.kb[t.act], Par(ps, 1, 0)))
             [] OTHER -> t
      [] c.pre = 60 (* < *) ->
           IF b = 117 THEN SetKb(t, KbPop(t.kb[t.act], Par(ps, 1, 1))) ELSE t
      [] c.pre = 61 (* = *) ->
           IF b = 117 THEN SetKb(t, KbSet(t.kb[t.act], Par(ps, 1, 0), Par(ps, 2, 1))) ELSE t

--------------------------------------------------------------------------
(* OSC: number, then nothing or ";" payload.                               *)
RECURSIVE NumLen(_, _)
NumLen(bs, i) == IF i <= Len(bs) /\ IsDigit(bs[i]) THEN NumLen(bs, i + 1) ELSE i - 1
RECURSIVE NumVal(_, _, _)
NumVal(bs, n, i) == IF i > n THEN 0 ELSE
  LET v == NumVal(bs, n - 1, i) IN Min2(MaxParam, v * 10 + (bs[n] - 48))

Osc(t, body) ==
  LET n == NumLen(body, 1)
      v == NumVal(body, n, 1)
      pay == SubSeq(body, n + 2, Len(body))
  IN IF n = 0 \/ (Len(body) > n /\ body[n + 1] # 59) THEN t
     ELSE CASE v \in {0, 2} -> SetStr(t, 1, pay)
            [] v = 6 -> SetStr(t, 2, pay)
            [] v = 7 -> SetStr(t, 3, pay)
            [] OTHER -> t

--------------------------------------------------------------------------
(* The byte automaton.                                                     *)
Go(t, st) == [t EXCEPT !.p = [s |-> st, b |-> <<>>, u |-> <<>>]]
Done(t) == [t EXCEPT !.p = Ground]

\* a control ends the text in front of it
Forget(t) == [FlushCluster(t) EXCEPT !.gm = FALSE, !.gl = FALSE]

GroundByte(t, b) ==
  IF b = 27 THEN Go(Forget(t), "esc")
  ELSE IF b < 32 \/ b = 127 THEN Control(Forget(t), b)
  ELSE IF b < 128 THEN Text(t, b)
  ELSE IF IsLead(b) THEN [t EXCEPT !.p.u = <<b>>]
  ELSE Text(t, Replacement)

StepByte(t, b) ==
  LET p == t.p IN
  CASE p.s = "g" ->
         IF p.u = <<>> THEN GroundByte(t, b)
         ELSE IF Extends8(p.u, b)
         THEN LET u == Append(p.u, b) IN
              IF Len(u) = NeedOf(u[1]) THEN Text(Done(t), Decode8(u))
              ELSE [t EXCEPT !.p.u = u]
         ELSE GroundByte(BadBytes(Done(t), Len(p.u)), b)
    [] p.s = "esc" ->
         CASE b = 91 -> Go(t, "csi")
           [] b = 93 -> Go(t, "osc")
           [] b = 80 -> Go(t, "dcs")
           [] b \in 32..47 -> Go(t, "int")
           [] b = 68 -> SetCur(Done(t), Index(Cur(t), t.st))
           [] b = 77 -> SetCur(Done(t), RevIndex(Cur(t), t.st))
           [] b = 61 -> SetFlag(Done(t), 6, TRUE)
           [] b = 62 -> SetFlag(Done(t), 6, FALSE)
           [] OTHER -> Done(t)
    [] p.s = "int" -> IF b \in 32..47 THEN t ELSE Done(t)
    [] p.s = "csi" ->
         IF b \in 32..63 THEN [t EXCEPT !.p.b = Append(@, b)] ELSE Csi(Done(t), p.b, b)
    [] p.s \in {"osc", "dcs"} ->
         LET esc == p.b # <<>> /\ p.b[Len(p.b)] = 27
             isST == (b = 92 /\ esc) \/ (b = 156 /\ ~(p.u # <<>> /\ Extends8(p.u, b)))
         IN IF p.s = "osc"
            THEN IF isST \/ b = 7
                 THEN Osc(Done(t), IF b = 92 THEN SubSeq(p.b, 1, Len(p.b) - 1) ELSE p.b)
                 ELSE [t EXCEPT !.p.b = Append(@, b), !.p.u = Track8(@, b)]
            ELSE IF isST THEN Done(t)
                 ELSE [t EXCEPT !.p.b = <<b>>, !.p.u = Track8(@, b)]

FeedFrom(t, bs) == FoldLeft(StepByte, t, bs)

\* forget what belongs to the previous step
Fresh(t) == [t EXCEPT !.out = <<>>, !.bell = 0, !.ev = <<>>, !.sback = <<>>]

\* one chunk of input; at its end everything already complete is on the screen
Feed(t, bs) == FlushCluster(FeedFrom(t, bs))

Resize(t, w, h) ==
  [t EXCEPT !.scr = [i \in 1..2 |-> ResizeScreen(@[i], w, h, t.st)]]

TermOK(t) == ScreenOK(t.scr[1], TW(t), TH(t)) /\ ScreenOK(t.scr[2], TW(t), TH(t)) /\ IsStyle(t.st)
=============================================================================

----------------------------- MODULE TermProps -----------------------------
(* The listed properties, as predicates over one step: from terminal a, by *)
(* input k = [k kind, b bytes, z size], to terminal b.  They are written   *)
(* over cells and positions, not with the operators that define the steps, *)
(* and TLC checks them on every step of every behaviour that is generated  *)
(* or enumerated.                                                          *)
EXTENDS Terminal

Clean(a) == a.p = Ground /\ a.gc = <<>>
SameFrame(A, B) == A.top = B.top /\ A.bot = B.bot /\ A.wrap = B.wrap /\ A.sx = B.sx /\ A.sy = B.sy
Rows(s) == 1..Len(s.rows)
Cols(s) == 1..Len(s.rows[1])

\* --- arguments of a CSI token, decoded here once more
RECURSIVE Split(_, _, _, _)
Split(bs, i, cur, acc) ==
  IF i > Len(bs) THEN Append(acc, cur)
  ELSE IF bs[i] = 59 THEN Split(bs, i + 1, <<>>, Append(acc, cur))
  ELSE Split(bs, i + 1, Append(cur, bs[i]), acc)
RECURSIVE DecVal(_)
DecVal(ds) == IF ds = <<>> THEN 0 ELSE DecVal(SubSeq(ds, 1, Len(ds) - 1)) * 10 + (ds[Len(ds)] - 48)
RECURSIVE Val(_)
Val(ds) == IF ds = <<>> THEN 0 ELSE IF ds[1] = 48 THEN Val(Tail(ds))
           ELSE IF Len(ds) >= 9 THEN MaxParam ELSE Min2(MaxParam, DecVal(ds))
Parts(k, skip) == Split(SubSeq(k.b, 3 + skip, Len(k.b) - 1), 1, <<>>, <<>>)
ArgOf(ps, i, d) == IF i > Len(ps) THEN d ELSE IF ps[i] = <<>> THEN d ELSE Val(ps[i])
Arg(k, i, d) == ArgOf(Parts(k, 0), i, d)

\* --- characters as sets of columns
Starts(row) == {i \in 1..Len(row) : row[i].w > 0}
Span(row, i) == i..(i + row[i].w - 1)
\* columns of the characters of a row that have a cell in X
Touched(row, X) == UNION {Span(row, i) : i \in {j \in Starts(row) : Span(row, j) \cap X # {}}}
IsBlank(c, st) == c = [t |-> <<32>>, w |-> 1, s |-> st]

\* rows y1..y2 moved by d (up if negative), the others as they were
Moved(A, B, y1, y2, d, st) ==
  /\ Len(B.rows) = Len(A.rows)
  /\ \A y \in Rows(A) :
       IF y < y1 \/ y > y2 \/ d = 0 THEN B.rows[y] = A.rows[y]
       ELSE IF y - d >= y1 /\ y - d <= y2 THEN B.rows[y] = A.rows[y - d]
       ELSE /\ Len(B.rows[y]) = Len(A.rows[y]) /\ \A x \in Cols(A) : IsBlank(B.rows[y][x], st)

--------------------------------------------------------------------------
P02(a, k, b) ==
  /\ \A i \in 1..2 : ScreenOK(b.scr[i], TW(b), TH(b))
  /\ (Clean(a) /\ k.k = "cpr" /\ Len(k.b) = 4) =>
       LET n == Parts([b |-> b.out], 0) IN Val(n[1]) \in 1..TH(b) /\ Val(n[2]) \in 1..TW(b)

\* --- C03: one character at the cursor
Decoded(bs) == IF Len(bs) = 1 THEN bs[1] ELSE Decode8(bs)
OneChar(bs) == IF Len(bs) = 1 THEN bs[1] \in 32..126
               ELSE IsLead(bs[1]) /\ Len(bs) = NeedOf(bs[1]) /\ SecondOK(bs[1], bs[2]) /\ \A i \in 3..Len(bs) : bs[i] \in 128..191
\* B0 is the screen after the character is stored at x..x+w-1 of row y and
\* before a scroll that follows it
Stored(A, B0, x, y, c, w, st) ==
  \A yy \in Rows(A), xx \in Cols(A) :
    LET n == B0[yy][xx]  o == A.rows[yy][xx] IN
    IF yy # y THEN n = o
    ELSE IF xx = x THEN n = [t |-> <<c>>, w |-> w, s |-> st]
    ELSE IF xx \in x..x+w-1 THEN n = [t |-> <<>>, w |-> 0, s |-> st]
    ELSE IF xx \in Touched(A.rows[y], x..x+w-1) THEN IsBlank(n, st)
    ELSE n = o
\* the cursor goes to the start of the next row, scrolling at the region's bottom
NextRow(A, y) == IF y = A.bot THEN y ELSE Min2(y + 1, Len(A.rows))
ShiftUp(rows, A, st) == [y \in 1..Len(rows) |-> IF y < A.top \/ y > A.bot THEN rows[y]
                                              ELSE IF y < A.bot THEN rows[y + 1] ELSE [x \in Cols(A) |-> [t |-> <<32>>, w |-> 1, s |-> st]]]
P03(a, k, b) ==
  (Clean(a) /\ a.mode = "rune" /\ k.k = "text" /\ OneChar(k.b)) =>
    LET A == Cur(a)  B == Cur(b)  W == Len(A.rows[1])  c == Decoded(k.b)  w == RuneWidth(c)
        before == a.act = b.act /\ SameFrame(A, B)
        early == A.cx + w - 1 > W            \* does not fit behind the cursor
        y0 == IF early /\ A.wrap THEN NextRow(A, A.cy) ELSE A.cy
        x0 == IF ~early THEN A.cx ELSE IF A.wrap THEN 1 ELSE W - w + 1
        A1 == IF early /\ A.wrap /\ A.cy = A.bot THEN [A EXCEPT !.rows = ShiftUp(A.rows, A, a.st)] ELSE A
        over == x0 + w > W
        mid == a.buf = "span" /\ A1.rows[y0][x0].w = 0
    IN /\ before
       /\ IF w > W THEN A = B
          ELSE \/ mid      \* sanctioned difference, see C20
               \/ /\ B.cx = (IF ~over THEN x0 + w ELSE IF A.wrap THEN 1 ELSE W)
                  /\ B.cy = (IF over /\ A.wrap THEN NextRow(A, y0) ELSE y0)
                  /\ IF over /\ A.wrap /\ y0 = A.bot
                     THEN LET R == CHOOSE r \in {[y \in Rows(A1) |-> IF y # y0 THEN A1.rows[y] ELSE
                                 [x \in Cols(A1) |-> IF x = x0 THEN [t |-> <<c>>, w |-> w, s |-> a.st]
                                                  ELSE IF x \in x0..x0+w-1 THEN [t |-> <<>>, w |-> 0, s |-> a.st]
                                                  ELSE IF x \in Touched(A1.rows[y0], x0..x0+w-1) THEN [t |-> <<32>>, w |-> 1, s |-> a.st]
                                                  ELSE A1.rows[y0][x]]]} : TRUE
                          IN B.rows = ShiftUp(R, A, a.st)
                     ELSE Stored(A1, B.rows, x0, y0, c, w, a.st)

\* --- C04
P04(a, k, b) ==
  LET A == Cur(a)  B == Cur(b)  W == Len(A.rows[1])  H == Len(A.rows)
      at(x, y) == B.cx = Min2(Max2(x, 1), W) /\ B.cy = Min2(Max2(y, 1), H) /\ B.rows = A.rows
      down(x) == /\ B.cx = x
                 /\ IF A.cy = A.bot THEN B.cy = A.cy /\ Moved(A, B, A.top, A.bot, -1, a.st)
                    ELSE B.cy = Min2(A.cy + 1, H) /\ B.rows = A.rows
      n == Arg(k, 1, 1)
  IN (Clean(a) /\ k.k \in {"bs", "ht", "cr", "lf", "ff", "ind", "ri", "cuu", "cud", "cuf", "cub", "cha", "vpa", "cup", "goto", "sc", "rc"}) =>
     /\ a.act = b.act /\ a.st = b.st
     /\ A.top = B.top /\ A.bot = B.bot /\ A.wrap = B.wrap
     /\ k.k # "sc" => (A.sx = B.sx /\ A.sy = B.sy)
     /\ CASE k.k = "bs" -> at(A.cx - 1, A.cy)
          [] k.k = "ht" -> at(CHOOSE x \in A.cx+1..A.cx+8 : (x - 1) % 8 = 0, A.cy)
          [] k.k = "cr" -> at(1, A.cy)
          [] k.k = "lf" -> down(1)
          [] k.k \in {"ff", "ind"} -> down(A.cx)
          [] k.k = "ri" -> /\ B.cx = A.cx
                           /\ IF A.cy = A.top THEN B.cy = A.cy /\ Moved(A, B, A.top, A.bot, 1, a.st)
                              ELSE B.cy = Max2(A.cy - 1, 1) /\ B.rows = A.rows
          [] k.k = "cuu" -> at(A.cx, A.cy - n)
          [] k.k = "cud" -> at(A.cx, A.cy + n)
          [] k.k = "cuf" -> at(A.cx + n, A.cy)
          [] k.k = "cub" -> at(A.cx - n, A.cy)
          [] k.k = "cha" -> at(n, A.cy)
          [] k.k = "vpa" -> at(A.cx, n)
          [] k.k \in {"cup", "goto"} -> at(Arg(k, 2, 1), n)
          [] k.k = "sc" -> at(A.cx, A.cy) /\ B.sx = A.cx /\ B.sy = A.cy
          [] k.k = "rc" -> at(A.sx, A.sy)

\* --- C05: the cells named by the definition, and nothing else
P05(a, k, b) ==
  LET A == Cur(a)  B == Cur(b)  W == Len(A.rows[1])  H == Len(A.rows)
      n == Arg(k, 1, 0)
      named(x, y) ==
        CASE k.k = "ed" /\ n = 0 -> y > A.cy \/ (y = A.cy /\ x >= A.cx)
          [] k.k = "ed" /\ n = 1 -> y < A.cy \/ (y = A.cy /\ x <= A.cx)
          [] k.k = "ed" /\ n = 2 -> TRUE
          [] k.k = "el" /\ n = 0 -> y = A.cy /\ x >= A.cx
          [] k.k = "el" /\ n = 1 -> y = A.cy /\ x <= A.cx
          [] k.k = "el" /\ n = 2 -> y = A.cy
          [] k.k = "ech" -> y = A.cy /\ x >= A.cx /\ x < A.cx + Arg(k, 1, 1)
          [] OTHER -> FALSE
      cut(y) == Touched(A.rows[y], {x \in Cols(A) : named(x, y)})
      m == Min2(Arg(k, 1, 1), W - A.cx + 1)
      gone == Touched(A.rows[A.cy], A.cx..A.cx + m - 1)
      src(x) == IF x \in gone THEN [t |-> <<32>>, w |-> 1, s |-> a.st] ELSE A.rows[A.cy][x]
  IN (Clean(a) /\ k.k \in {"ed", "el", "ech", "dch"}) =>
     /\ a.act = b.act /\ a.st = b.st /\ SameFrame(A, B)
     /\ IF k.k = "ed" /\ n = 2 THEN B.cx = 1 /\ B.cy = 1 ELSE B.cx = A.cx /\ B.cy = A.cy
     /\ IF k.k # "dch"
        THEN \A y \in Rows(A) : LET c == cut(y) IN \A x \in Cols(A) :
               IF x \in c THEN IsBlank(B.rows[y][x], a.st) ELSE B.rows[y][x] = A.rows[y][x]
        ELSE \A y \in Rows(A), x \in Cols(A) :
               IF y # A.cy THEN B.rows[y][x] = A.rows[y][x]
               ELSE IF x < A.cx THEN B.rows[y][x] = src(x)
               ELSE IF x + m <= W THEN B.rows[y][x] = src(x + m)
               ELSE IsBlank(B.rows[y][x], a.st)

\* --- C06
P06(a, k, b) ==
  LET A == Cur(a)  B == Cur(b)  H == Len(A.rows)  n == Arg(k, 1, 1)
      inside == A.cy >= A.top /\ A.cy <= A.bot
      lim(v, h) == Min2(v, h)
      y2 == Arg(k, 2, H)
  IN (Clean(a) /\ k.k \in {"il", "dl", "su", "sd", "stbm", "region"}) =>
     /\ a.act = b.act /\ a.st = b.st /\ A.wrap = B.wrap /\ A.sx = B.sx /\ A.sy = B.sy /\ B.cx = A.cx /\ B.cy = A.cy
     /\ k.k \notin {"stbm", "region"} => A.top = B.top /\ A.bot = B.bot
     /\ CASE k.k = "su" -> Moved(A, B, A.top, A.bot, -lim(n, A.bot - A.top + 1), a.st)
          [] k.k = "sd" -> Moved(A, B, A.top, A.bot, lim(n, A.bot - A.top + 1), a.st)
          [] k.k = "il" -> IF inside THEN Moved(A, B, A.cy, A.bot, lim(n, A.bot - A.cy + 1), a.st) ELSE A.rows = B.rows
          [] k.k = "dl" -> IF inside THEN Moved(A, B, A.cy, A.bot, -lim(n, A.bot - A.cy + 1), a.st) ELSE A.rows = B.rows
          [] OTHER -> /\ A.rows = B.rows
                      /\ IF n > y2 THEN B.top = A.top /\ B.bot = A.bot
                         ELSE B.top = Min2(Max2(n, 1), H) /\ B.bot = Min2(Max2(y2, 1), H)

\* --- C07: each attribute has the value given by the last parameter that
\* names it; extended colours take their arguments with them
RECURSIVE ItemStarts(_, _)
ItemLen(ps, i) == IF ps[i] \in {38, 48} /\ i + 2 <= Len(ps) /\ ps[i + 1] = 5 THEN 3
                  ELSE IF ps[i] \in {38, 48} /\ i + 4 <= Len(ps) /\ ps[i + 1] = 2 THEN 5 ELSE 1
ItemStarts(ps, i) == IF i > Len(ps) THEN {} ELSE {i} \cup ItemStarts(ps, i + ItemLen(ps, i))
FgOf(ps, i) ==
  LET p == ps[i] IN
  CASE p = 0 \/ p = 39 -> <<0, 0>> [] p \in 30..37 -> <<1, p - 30>> [] p \in 90..97 -> <<2, p - 90>>
    [] p = 38 /\ ItemLen(ps, i) = 3 -> <<1, ps[i + 2] % 256>>
    [] p = 38 /\ ItemLen(ps, i) = 5 -> <<3, ((ps[i + 2] % 256) * 256 + (ps[i + 3] % 256)) * 256 + (ps[i + 4] % 256)>>
    [] OTHER -> <<>>
BgOf(ps, i) ==
  LET p == ps[i] IN
  CASE p = 0 \/ p = 49 -> <<0, 0>> [] p \in 40..47 -> <<1, p - 40>> [] p \in 100..107 -> <<2, p - 100>>
    [] p = 48 /\ ItemLen(ps, i) = 3 -> <<1, ps[i + 2] % 256>>
    [] p = 48 /\ ItemLen(ps, i) = 5 -> <<3, ((ps[i + 2] % 256) * 256 + (ps[i + 3] % 256)) * 256 + (ps[i + 4] % 256)>>
    [] OTHER -> <<>>
OffCode(m) == CASE m \in {1, 2} -> 22 [] m = 3 -> 23 [] m \in {4, 21} -> 24 [] m \in {5, 6} -> 25 [] m = 7 -> 27
                [] m = 8 -> 28 [] m = 9 -> 29 [] m \in {51, 52} -> 54 [] m = 53 -> 55
LastOf(S, old, F(_)) == LET T == {i \in S : F(i) # <<>>} IN
  IF T = {} THEN old ELSE F(CHOOSE i \in T : \A j \in T : j <= i)
P07(a, k, b) ==
  /\ (Clean(a) /\ k.k = "sgr") =>
       LET ps0 == Parts(k, 0)
           ps == [i \in 1..Len(ps0) |-> Val(ps0[i])]
           S == ItemStarts(ps, 1)
           modeF(m) == LastOf(S, <<m \in a.st.m>>, LAMBDA i : IF ps[i] = m THEN <<TRUE>> ELSE IF ps[i] \in {0, OffCode(m)} THEN <<FALSE>> ELSE <<>>)
       IN /\ b.st.fg = LastOf(S, a.st.fg, LAMBDA i : FgOf(ps, i))
          /\ b.st.bg = LastOf(S, a.st.bg, LAMBDA i : BgOf(ps, i))
          /\ \A m \in ModeCodes : (m \in b.st.m) <=> modeF(m)[1]
          /\ a.scr = b.scr
  \* a cell that changed without moving has the rendition in force
  /\ (Clean(a) /\ k.k \in {"ed", "el", "ech"}) =>
       \A y \in 1..TH(a), x \in 1..TW(a) : Cur(b).rows[y][x] # Cur(a).rows[y][x] => Cur(b).rows[y][x].s = b.st

\* --- C08: delivering in two pieces is delivering in one
P08(a, k, b) ==
  (a.mode = "rune" /\ k.k # "resize" /\ Len(k.b) > 1) =>
    \A i \in {1, Len(k.b) \div 2, Len(k.b) - 1} :
      Feed(Feed(Fresh(a), SubSeq(k.b, 1, i)), SubSeq(k.b, i + 1, Len(k.b))) = b

\* --- C09
PlainFinals == {65, 66, 67, 68, 71, 72, 74, 75, 76, 77, 80, 83, 84, 88, 99, 100, 102, 104, 108, 109, 110, 114, 115, 117}
KnownCsi(body, f) ==
  LET pre == IF body # <<>> /\ body[1] \in 60..63 THEN body[1] ELSE 0
      rest == IF pre = 0 THEN body ELSE Tail(body)
  IN /\ \A i \in 1..Len(rest) : rest[i] \in 48..57 \/ rest[i] = 59
     /\ CASE pre = 0 -> f \in PlainFinals [] pre = 63 -> f \in {104, 108, 117} [] pre = 62 -> f \in {99, 109, 117}
          [] pre \in {60, 61} -> f = 117
P09(a, k, b) ==
  /\ (Clean(a) /\ k.k = "csi") =>
       /\ b.p = Ground
       /\ ~KnownCsi(SubSeq(k.b, 3, Len(k.b) - 1), k.b[Len(k.b)]) => b = [Fresh(a) EXCEPT !.gm = b.gm, !.gl = b.gl]
  /\ (Clean(a) /\ k.k = "esc") =>
       /\ b.p = Ground
       /\ k.b[2] \notin {61, 62, 68, 77} => b = [Fresh(a) EXCEPT !.gm = b.gm, !.gl = b.gl]
  /\ (Clean(a) /\ k.k \in {"osc", "dcs"}) => 
       \* nothing of a string reaches the screen: up to its first terminator
       LET L == Len(k.b) IN
       (/\ \A i \in 3..L - 1 : k.b[i] # 156 /\ (k.k = "osc" => k.b[i] # 7)
        /\ \A i \in 3..L - 2 : ~(k.b[i] = 27 /\ k.b[i + 1] = 92))
       => b.scr = a.scr /\ b.st = a.st /\ b.vf = a.vf /\ b.vi = a.vi /\ b.kb = a.kb /\ b.act = a.act /\ b.out = <<>> /\ b.bell = 0
  /\ (Clean(a) /\ k.k = "osc" /\ b.p = Ground /\ b.scr = a.scr) =>
       \A e \in 1..Len(b.ev) : b.ev[e][1] = "s" =>
         \* the string delivered is what stands between the first ";" and a terminator
         LET s == SubSeq(b.ev[e], 3, Len(b.ev[e])) IN
         s = <<>> \/ \E i \in 1..Len(k.b) : k.b[i] = 59 /\ SubSeq(k.b, i + 1, i + Len(s)) = s
                                /\ k.b[i + Len(s) + 1] \in {7, 27, 156} /\ \A j \in 3..i - 1 : IsDigit(k.b[j])

\* --- C10: notifications of values; rows lost at the top of the main screen
P10(a, k, b) ==
  /\ \A i \in 1..6 : a.vf[i] # b.vf[i] => \E e \in 1..Len(b.ev) : b.ev[e] = <<"f", i, IF b.vf[i] THEN 1 ELSE 0>>
                                         /\ \A j \in e+1..Len(b.ev) : ~(b.ev[j][1] = "f" /\ b.ev[j][2] = i)
  /\ \A i \in 1..3 : a.vi[i] # b.vi[i] => \E e \in 1..Len(b.ev) : b.ev[e] = <<"i", i, b.vi[i]>> /\ \A j \in e+1..Len(b.ev) : ~(b.ev[j][1] = "i" /\ b.ev[j][2] = i)
  /\ \A i \in 1..3 : a.vs[i] # b.vs[i] => \E e \in 1..Len(b.ev) : b.ev[e][1] = "s" /\ b.ev[e][2] = i /\ SubSeq(b.ev[e], 3, Len(b.ev[e])) = b.vs[i]
  /\ (Clean(a) /\ k.k \in {"su", "lf", "ff", "ind", "dl"}) =>
       LET A == Cur(a)
           n == CASE k.k = "su" -> IF A.top = 1 THEN Min2(Arg(k, 1, 1), A.bot) ELSE 0
                  [] k.k = "dl" -> IF A.cy = 1 /\ A.top = 1 THEN Min2(Arg(k, 1, 1), A.bot) ELSE 0
                  [] OTHER -> IF A.cy = A.bot /\ A.top = 1 THEN 1 ELSE 0
       IN b.sback = (IF a.act = 1 THEN SubSeq(A.rows, 1, n) ELSE <<>>)
  /\ (Clean(a) /\ k.k \notin {"text", "bad", "su", "lf", "ff", "ind", "dl", "esc", "osc", "dcs", "csi", "mode", "setup", "st"}) => b.sback = <<>>

\* --- C11: a row written out as text and SGR reads back as itself
RECURSIVE AnsiFrom(_, _)
AnsiFrom(row, i) ==
  IF i > Len(row) THEN <<>>
  ELSE (IF i = 1 \/ row[i].s # row[Max2(i - 1, 1)].s
        THEN LET ps == StyleParams(row[i].s) IN
             <<27, 91>> \o Tail(FoldLeft(LAMBDA acc, p : acc \o <<59>> \o Digits(p), <<>>, ps)) \o <<109>>
        ELSE <<>>)
       \o FoldLeft(LAMBDA acc, c : acc \o Encode8(c), <<>>, row[i].t) \o AnsiFrom(row, i + 1)
AnsiRow(row) == AnsiFrom(row, 1)
P11(b) ==
  b.mode = "rune" =>
    LET row == Cur(b).rows[Cur(b).cy] IN
    Cur(Feed(NewTerminal(Len(row), 1, b.buf, b.mode), AnsiRow(row))).rows[1] = row

\* --- C14
QueryKinds == {"da1", "da2", "dsr", "cpr", "kbq"}
P14(a, k, b) ==
  /\ (k.k \notin QueryKinds \cup {"csi", "osc", "dcs", "st", "bad", "setup", "key", "mouse"}) => b.out = <<>>
  /\ (Clean(a) /\ k.k \in QueryKinds /\ \A i \in 3..Len(k.b) : k.b[i] # 27) =>
       b.out = CASE k.k = "da1" -> IF Arg(k, 1, 0) = 0 THEN <<27, 91, 63, 49, 59, 50, 99>> ELSE <<>>
                 [] k.k = "da2" -> <<27, 91, 62, 49, 59, 52, 52, 48, 50, 59, 48, 99>>
                 [] k.k = "kbq" -> <<27, 91, 63>> \o Digits(a.kb[a.act].f) \o <<117>>
                 [] k.b[3] = 63 -> <<>>
                 [] Arg(k, 1, 0) = 5 -> <<27, 91, 48, 110>>
                 [] Arg(k, 1, 0) = 6 -> <<27, 91>> \o Digits(Cur(a).cy) \o <<59>> \o Digits(Cur(a).cx) \o <<82>>
                 [] OTHER -> <<>>

\* --- C17
Sans(x) == [Fresh(x) EXCEPT !.gm = FALSE, !.gl = FALSE]
P17(a, k, b) ==
  /\ (Clean(a) /\ k.k \notin {"alt", "mode", "resize", "setup", "osc", "dcs", "st", "bad"}) =>
       /\ a.act = b.act /\ a.scr[3 - a.act] = b.scr[3 - a.act] /\ a.kb[3 - a.act] = b.kb[3 - a.act]
  /\ (Clean(a) /\ k.k = "alt") => a.scr = b.scr /\ a.kb = b.kb /\ b.act = (IF k.b[Len(k.b)] = 104 THEN 2 ELSE 1)
  /\ (Clean(a) /\ k.k = "mode") =>
       /\ \A i \in 1..2 : [a.scr[i] EXCEPT !.wrap = TRUE] = [b.scr[i] EXCEPT !.wrap = TRUE]
       /\ Len(Parts(k, 1)) = 1 => Sans(Feed(b, k.b)) = Sans(b)         \* setting again changes nothing
  /\ (Clean(a) /\ k.k = "wrap") =>
       /\ Cur(b) = [Cur(a) EXCEPT !.wrap = (k.b[Len(k.b)] = 104)] /\ Sans(Feed(b, k.b)) = Sans(b)

\* --- C18
P18(a, k, b) ==
  k.k = "resize" =>
    /\ TW(b) = k.z[1] /\ TH(b) = k.z[2] /\ b.act = a.act /\ b.st = a.st /\ b.kb = a.kb
    /\ \A i \in 1..2 : LET A == a.scr[i]  B == b.scr[i]  W == Len(A.rows[1])  H == Len(A.rows) IN
         /\ \A y \in Rows(B), x \in Cols(B) :
              IF y > H \/ x > W THEN IsBlank(B.rows[y][x], a.st)
              ELSE IF \E i2 \in Starts(A.rows[y]) : x \in Span(A.rows[y], i2) /\ i2 + A.rows[y][i2].w - 1 > k.z[1]
                   THEN IsBlank(B.rows[y][x], a.st)
                   ELSE B.rows[y][x] = A.rows[y][x]
         /\ B.cx = Min2(A.cx, k.z[1]) /\ B.cy = Min2(A.cy, k.z[2])
         /\ B.sx = Min2(A.sx, k.z[1]) /\ B.sy = Min2(A.sy, k.z[2])
         /\ B.wrap = A.wrap
         /\ (A.top = 1 /\ A.bot = H) => (B.top = 1 /\ B.bot = k.z[2])

\* --- C19
P19(a, k, b) ==
  LET K == a.kb[a.act]  L == b.kb[a.act]
      ps == Parts(k, 1)
      f == ArgOf(ps, 1, 0)
      n == Max2(ArgOf(ps, 1, 1), 1)
      bit(v, i) == (v \div (2 ^ i)) % 2
  IN Clean(a) =>
     /\ Len(L.stack) <= 32
     /\ k.k \notin {"kbset", "kbpush", "kbpop", "csi", "osc", "dcs", "st", "bad", "setup"} => a.kb = b.kb
     /\ k.k = "kbset" => /\ L.stack = K.stack
                         /\ LET m == ArgOf(ps, 2, 1) IN
                            \A i \in 0..23 : bit(L.f, i) = CASE m \in {0, 1} -> bit(f, i)
                                                            [] m = 2 -> Max2(bit(K.f, i), bit(f, i))
                                                            [] m = 3 -> IF bit(f, i) = 1 THEN 0 ELSE bit(K.f, i)
                                                            [] OTHER -> bit(K.f, i)
     /\ k.k = "kbpush" => /\ L.f = f
                          /\ Len(L.stack) = Min2(Len(K.stack) + 1, 32)
                          /\ L.stack[Len(L.stack)] = K.f
                          /\ \A i \in 1..Len(L.stack) - 1 : L.stack[Len(L.stack) - i] = K.stack[Len(K.stack) - i + 1]
     /\ k.k = "kbpop" => IF n > Len(K.stack) THEN L = [f |-> 0, stack |-> <<>>]
                         ELSE /\ Len(L.stack) = Len(K.stack) - n
                              /\ L.f = K.stack[Len(K.stack) - n + 1]
                              /\ \A i \in 1..Len(L.stack) : L.stack[i] = K.stack[i]

\* --- C20: the buffer only matters to a write that starts inside a character
Unbuf(x) == [x EXCEPT !.buf = "x"]
P20(a, k, b) ==
  (Clean(a) /\ a.mode = "rune" /\ k.k \notin {"resize", "key", "mouse", "bad", "setup", "osc", "dcs", "st"}
     /\ (k.k = "text" => OneChar(k.b)) /\ Unbuf(Feed(Fresh([a EXCEPT !.buf = IF @ = "span" THEN "grid" ELSE "span"]), k.b)) # Unbuf(b)) =>
    LET A == Cur(a) IN k.k = "text" /\ \E y \in Rows(A), x \in Cols(A) : A.rows[y][x].w = 0
=============================================================================

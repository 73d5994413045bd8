----------------------------- MODULE TermScreen -----------------------------
(* One screen buffer.  All coordinates are 1-based.                        *)
(*                                                                         *)
(* A cell is [t, w, s]: t the code points shown (<<>> for the second and   *)
(* later cells of a wide character), w its width (0 for those cells), s    *)
(* its style.  A screen is                                                 *)
(*   [rows, cx, cy, sx, sy, top, bot, wrap, off]                           *)
(* rows: Seq of rows, each a Seq of cells; (cx,cy) cursor; (sx,sy) saved   *)
(* cursor; top..bot the scroll region; wrap DECAWM; off: the rows that     *)
(* left the screen over its top edge during the current step.              *)
EXTENDS Integers, Sequences, FiniteSets, TermStyle, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

Blank(st)    == [t |-> <<32>>, w |-> 1, s |-> st]
Cont(st)     == [t |-> <<>>, w |-> 0, s |-> st]
CharCells(txt, w, st) == [i \in 1..w |-> IF i = 1 THEN [t |-> txt, w |-> w, s |-> st] ELSE Cont(st)]
BlankRow(w, st)  == [i \in 1..w |-> Blank(st)]

NewScreen(w, h, st) ==
  [rows |-> [y \in 1..h |-> BlankRow(w, st)], cx |-> 1, cy |-> 1, sx |-> 1, sy |-> 1,
   top |-> 1, bot |-> h, wrap |-> FALSE, off |-> <<>>]

Wid(s) == Len(s.rows[1])
Hei(s) == Len(s.rows)

--------------------------------------------------------------------------
(* Rows.                                                                   *)
RECURSIVE Base(_, _)
Base(row, i) == IF row[i].w = 0 /\ i > 1 THEN Base(row, i - 1) ELSE i
CharEnd(row, i) == LET b == Base(row, i) IN Min2(b + Max2(row[b].w, 1) - 1, Len(row))

\* Put `cells' at columns x.. ; characters that stick out of the range on
\* either side lose their other half to a blank.
PutCells(row, x, cells, st) ==
  LET n  == Len(cells)
      lo == Base(row, x)
      hi == CharEnd(row, x + n - 1)
  IN IF n = 0 THEN row
     ELSE TLCEval([i \in 1..Len(row) |->
            IF i >= x /\ i < x + n THEN cells[i - x + 1]
            ELSE IF i >= lo /\ i <= hi THEN Blank(st)
            ELSE row[i]])

\* First n columns of a (possibly longer) row; a character cut by the edge is blanked.
FitRow(row, n, st) ==
  IF Len(row) <= n THEN row \o BlankRow(n - Len(row), st)
  ELSE LET b == Base(row, n)
           e == b + row[b].w - 1
       IN IF e <= n THEN SubSeq(row, 1, n)
          ELSE SubSeq(row, 1, b - 1) \o BlankRow(n - b + 1, st)

--------------------------------------------------------------------------
(* Scrolling: rows y1..y2 move by d (negative: up); vacated rows blank.    *)
Scroll(s, y1, y2, d, st) ==
  LET n == Min2(IF d < 0 THEN -d ELSE d, y2 - y1 + 1)
      w == Wid(s)
  IN IF y1 > y2 \/ n <= 0 THEN s
     ELSE IF d < 0
     THEN [s EXCEPT
            !.rows = [y \in 1..Hei(s) |->
                        IF y < y1 \/ y > y2 THEN @[y]
                        ELSE IF y + n <= y2 THEN @[y + n] ELSE BlankRow(w, st)],
            !.off = IF y1 = 1 THEN @ \o SubSeq(s.rows, 1, n) ELSE @]
     ELSE [s EXCEPT
            !.rows = [y \in 1..Hei(s) |->
                        IF y < y1 \/ y > y2 THEN @[y]
                        ELSE IF y - n >= y1 THEN @[y - n] ELSE BlankRow(w, st)]]

(* Vertical moves that scroll when they cross an edge of the region from   *)
(* inside (LF, FF, IND, autowrap / RI).                                    *)
Index(s, st) ==
  IF s.cy = s.bot THEN Scroll(s, s.top, s.bot, -1, st)
  ELSE [s EXCEPT !.cy = Min2(@ + 1, Hei(s))]
RevIndex(s, st) ==
  IF s.cy = s.top THEN Scroll(s, s.top, s.bot, 1, st)
  ELSE [s EXCEPT !.cy = Max2(@ - 1, 1)]

--------------------------------------------------------------------------
(* Cursor.                                                                 *)
MoveTo(s, x, y) == [s EXCEPT !.cx = Clamp(x, 1, Wid(s)), !.cy = Clamp(y, 1, Hei(s))]
MoveBy(s, dx, dy) == MoveTo(s, s.cx + dx, s.cy + dy)
SaveCur(s) == [s EXCEPT !.sx = s.cx, !.sy = s.cy]
RestCur(s) == [s EXCEPT !.cx = s.sx, !.cy = s.sy]

--------------------------------------------------------------------------
(* Text.  A character (or cluster) txt of w cells at the cursor.           *)
(* buf = "span" keeps a wide character the cursor is in the middle of and  *)
(* inserts behind it (when there is room); buf = "grid" overwrites it.     *)
Advance(s, x, st) ==          \* cursor after writing up to column x-1
  IF x <= Wid(s) THEN [s EXCEPT !.cx = x]
  ELSE IF s.wrap THEN Index([s EXCEPT !.cx = 1], st)
  ELSE [s EXCEPT !.cx = Wid(s)]

PutChar(s, txt, w, st, buf) ==
  LET W   == Wid(s)
      row == s.rows[s.cy]
      b   == Base(row, s.cx)
      nx  == b + row[b].w              \* column behind the character under the cursor
      cells == CharCells(txt, w, st)
  IN IF buf = "span" /\ b < s.cx /\ nx + w - 1 <= W
     THEN Advance([s EXCEPT !.rows[s.cy] =
                     FitRow(SubSeq(row, 1, nx - 1) \o cells \o SubSeq(row, nx, W), W, st)],
                  nx + w, st)
     ELSE Advance([s EXCEPT !.rows[s.cy] = PutCells(row, s.cx, cells, st)], s.cx + w, st)

WriteChar(s, txt, w, st, buf) ==
  LET W == Wid(s) IN
  IF w > W THEN s
  ELSE IF s.cx + w - 1 <= W THEN PutChar(s, txt, w, st, buf)
  ELSE IF s.wrap THEN PutChar(Index([s EXCEPT !.cx = 1], st), txt, w, st, buf)
  ELSE PutChar([s EXCEPT !.cx = W - w + 1], txt, w, st, buf)

--------------------------------------------------------------------------
(* Erase and delete.                                                       *)
EraseCols(s, y, x1, x2, st) ==       \* columns x1..x2 of row y, clipped
  LET a == Max2(x1, 1)  z == Min2(x2, Wid(s)) IN
  IF a > z THEN s
  ELSE [s EXCEPT !.rows[y] = PutCells(@, a, BlankRow(z - a + 1, st), st)]
EraseRows(s, y1, y2, st) ==
  [s EXCEPT !.rows = [y \in 1..Hei(s) |-> IF y >= y1 /\ y <= y2 THEN BlankRow(Wid(s), st) ELSE @[y]]]

EraseDisplay(s, p, st) ==
  CASE p = 0 -> EraseRows(EraseCols(s, s.cy, s.cx, Wid(s), st), s.cy + 1, Hei(s), st)
    [] p = 1 -> EraseRows(EraseCols(s, s.cy, 1, s.cx, st), 1, s.cy - 1, st)
    [] p = 2 -> MoveTo(EraseRows(s, 1, Hei(s), st), 1, 1)
    [] OTHER -> s
EraseLine(s, p, st) ==
  CASE p = 0 -> EraseCols(s, s.cy, s.cx, Wid(s), st)
    [] p = 1 -> EraseCols(s, s.cy, 1, s.cx, st)
    [] p = 2 -> EraseCols(s, s.cy, 1, Wid(s), st)
    [] OTHER -> s
EraseChars(s, n, st) == EraseCols(s, s.cy, s.cx, s.cx + Min2(n, Wid(s)) - 1, st)
DeleteChars(s, n0, st) ==
  LET W == Wid(s)
      x == s.cx
      n == Min2(n0, W - x + 1)
  IN IF n <= 0 THEN s
     ELSE [s EXCEPT !.rows[s.cy] =
             LET r == PutCells(@, x, BlankRow(n, st), st)
             IN SubSeq(r, 1, x - 1) \o SubSeq(r, x + n, W) \o BlankRow(n, st)]

InsertLines(s, n, st) == IF s.cy < s.top \/ s.cy > s.bot THEN s ELSE Scroll(s, s.cy, s.bot, n, st)
DeleteLines(s, n, st) == IF s.cy < s.top \/ s.cy > s.bot THEN s ELSE Scroll(s, s.cy, s.bot, -n, st)

\* DECSTBM with raw (possibly out-of-range) rows; top below bottom: ignored
SetMargins(s, t, b) ==
  IF t > b THEN s
  ELSE [s EXCEPT !.top = Clamp(t, 1, Hei(s)), !.bot = Clamp(b, 1, Hei(s))]

--------------------------------------------------------------------------
(* Resize: content anchored top-left, the region keeps its distance from   *)
(* the bottom, everything brought inside.                                  *)
ResizeScreen(s, w, h, st) ==
  LET t == Clamp(s.top, 1, h)
      b == Clamp(h - (Hei(s) - s.bot), 1, h)
      ok == t <= b
  IN [s EXCEPT
       !.rows = [y \in 1..h |-> IF y <= Hei(s) THEN FitRow(s.rows[y], w, st) ELSE BlankRow(w, st)],
       !.cx = Clamp(@, 1, w), !.cy = Clamp(@, 1, h),
       !.sx = Clamp(@, 1, w), !.sy = Clamp(@, 1, h),
       !.top = IF ok THEN t ELSE 1, !.bot = IF ok THEN b ELSE h]

--------------------------------------------------------------------------
(* Well-formedness (used by the invariants).                               *)
RowOK(row, w) ==
  /\ Len(row) = w
  /\ \A i \in 1..w :
       /\ IsStyle(row[i].s)
       /\ row[i].w = 0 <=> row[i].t = <<>>
       /\ row[i].w = 0 => i > 1 /\ LET b == Base(row, i) IN row[b].w > i - b /\ row[i].s = row[b].s
       /\ row[i].w > 0 => i + row[i].w - 1 <= w /\ \A j \in i+1..i+row[i].w-1 : row[j].w = 0
ScreenOK(s, w, h) ==
  /\ Len(s.rows) = h /\ \A y \in 1..h : RowOK(s.rows[y], w)
  /\ s.cx \in 1..w /\ s.cy \in 1..h /\ s.sx \in 1..w /\ s.sy \in 1..h
  /\ s.top \in 1..h /\ s.bot \in s.top..h
=============================================================================

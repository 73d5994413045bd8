------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* A TTYFrontend attached to a region keeps an outer terminal, which       *)
(* interprets what it writes, identical to the inner screen in the region. *)
(*                                                                         *)
(* Recorded executions of the real TTYFrontend: per event what happened    *)
(* (o: bytes to the inner terminal, its resize, attach, detach, focus,     *)
(* blur), what the frontend wrote (out), the real inner screen.  Inner and outer terminal are  *)
(* both the specification's, so neither depends on the real parser.        *)
(***************************************************************************)
EXTENDS TermJson

Traces == ndJsonDeserialize(IOEnv.TRACES)
OutFile == IOEnv.OUT
Shard == atoi(IOEnv.SHARD)
NShard == atoi(IOEnv.NSHARD)

VARIABLES tr, ev, t, u,
          at,      \* <<>> detached, or the region <<x, y, x2, y2>> (0-based, exclusive)
          focus,
          shown    \* the application shows its cursor
vars == <<tr, ev, t, u, at, focus, shown>>
TR == Traces[tr]

Run(s, b) == IF b = <<>> THEN s ELSE Feed(Fresh(s), b)
Init ==
  /\ tr \in {i \in 1..Len(Traces) : i % NShard = Shard}
  /\ ev = 0 /\ at = <<>> /\ focus = TRUE /\ shown = TRUE
  /\ t = NewTerminal(TR.w, TR.h, TR.buf, TR.mode)
  /\ u = Feed(NewTerminal(TR.ow, TR.oh, "span", TR.mode), TR.pre)

\* cells x1..x2 (1-based) of a row; a character cut by the edge shows blanks
Window(row, x1, x2) ==
  [i \in 1..(x2 - x1 + 1) |->
     LET x == x1 + i - 1  b == Base(row, x) IN
     IF b < x1 \/ b + row[b].w - 1 > x2 THEN <<row[x].s, <<32>>>> ELSE <<row[x].s, row[x].t>>]


Same(a, b, g) ==      \* inner screen a, outer screen b, region g
  LET x2 == Min2(g[3], Wid(a))  y2 == Min2(g[4], Hei(a)) IN
  \A y \in (g[2] + 1)..y2 : g[1] < x2 => Window(a.rows[y], g[1] + 1, x2) = Window(b.rows[y], g[1] + 1, x2)

CursorRight(a, b, vis, sh, g) ==
  LET ins == a.cx - 1 >= g[1] /\ a.cx - 1 < g[3] /\ a.cy - 1 >= g[2] /\ a.cy - 1 < g[4] IN
  IF ins /\ sh THEN vis /\ b.cx = a.cx /\ b.cy = a.cy ELSE ~vis

\* nothing outside the region differs from the filling
Outside(b, g) ==
  \A y \in 1..Hei(b) : \A x \in 1..Wid(b) :
    \/ (x - 1 >= g[1] /\ x - 1 < g[3] /\ y - 1 >= g[2] /\ y - 1 < g[4])
    \/ (b.rows[y][x].t = <<35>> /\ b.rows[y][x].s = StyleDefault)

RECURSIVE OnlyShows(_)
Show == <<27, 91, 63, 50, 53, 104>>
OnlyShows(s) == s = <<>> \/ (Len(s) >= 6 /\ SubSeq(s, 1, 6) = Show /\ OnlyShows(SubSeq(s, 7, Len(s))))

\* the application's last word about its cursor
Shows(s0, evs) == LET f == SelectSeq(evs, LAMBDA e : e[1] = "f" /\ e[2] = 2) IN IF f = <<>> THEN s0 ELSE f[Len(f)][3] = 1

Step ==
  /\ ev < Len(TR.ev)
  /\ LET e == TR.ev[ev + 1]
         t2 == TLCEval(CASE e.o = "bytes" -> Run(t, e.b)
                         [] e.o = "resize" -> Resize(Fresh(t), e.z[1], e.z[2])
                         [] OTHER -> Fresh(t))
         u1 == IF e.o = "attach" THEN Run(u, TR.pre) ELSE u
         u2 == TLCEval(Run(u1, e.out))
         g == IF e.o = "attach" THEN e.z ELSE IF e.o = "detach" THEN <<>> ELSE at
         fo == IF e.o = "focus" THEN TRUE ELSE IF e.o = "blur" THEN FALSE ELSE focus
         sh == Shows(shown, t2.ev)
         \* a real inner terminal that is not as specified is no matter of its frontend
         astray == e.inner # RowsJ(Cur(t2)) \/ e.c # <<Cur(t2).cx, Cur(t2).cy>>
     IN /\ t' = t2 /\ u' = u2 /\ at' = g /\ focus' = fo /\ shown' = sh
        /\ TRUE = IF astray THEN TRUE ELSE IF g = <<>> THEN OnlyShows(e.out)
                  ELSE /\ Same(Cur(t2), Cur(u2), g)
                       /\ Outside(Cur(u2), g)
                       /\ fo => CursorRight(Cur(t2), Cur(u2), u2.vf[2], sh, g)
        /\ ev' = IF astray THEN 1000000 ELSE ev + 1
  /\ AppendLine(ToString(tr) \o " " \o ToString(ev'), OutFile)
  /\ UNCHANGED tr

Next == Step
Spec == Init /\ [][Next]_vars
Sane == TermOK(t) /\ TermOK(u)
=============================================================================

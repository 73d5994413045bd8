------------------------------ MODULE TermJson ------------------------------
(* JSON images of steps and states, for the replay harness.                *)
EXTENDS Input, TLC, Json, Out

(* JSON image of a state.  A row is a list of runs <<style, cell, cell..>> *)
StyleKey(s) == s.fg \o s.bg \o SetToSeqAsc(s.m)
RECURSIVE Runs(_, _, _)
Runs(row, i, acc) ==
  IF i > Len(row) THEN acc
  ELSE IF acc # <<>> /\ row[i].s = row[i-1].s
       THEN Runs(row, i + 1, [acc EXCEPT ![Len(acc)] = Append(@, row[i].t)])
       ELSE Runs(row, i + 1, Append(acc, <<StyleKey(row[i].s), row[i].t>>))
RowJ(row) == Runs(row, 1, <<>>)
RowsJ(s) == [y \in 1..Len(s.rows) |-> RowJ(s.rows[y])]

\* changed rows of the active screen, or all of them
Delta(a, b) ==
  IF Wid(Cur(a)) # Wid(Cur(b)) \/ Hei(Cur(a)) # Hei(Cur(b)) \/ a.act # b.act
  THEN [y \in 1..TH(b) |-> <<y, RowJ(Cur(b).rows[y])>>]
  ELSE LET ch == SelectSeq([y \in 1..TH(b) |-> y], LAMBDA y : Cur(a).rows[y] # Cur(b).rows[y])
       IN [i \in 1..Len(ch) |-> <<ch[i], RowJ(Cur(b).rows[ch[i]])>>]

ScrJ(s) == <<s.cx, s.cy, s.sx, s.sy, s.top, s.bot, IF s.wrap THEN 1 ELSE 0>>

\* what a step did; parts that did not change are left out
Opt(cond, r) == IF cond THEN r ELSE <<>>
Image(a, b, k) ==
  LET s == Cur(b)  d == Delta(a, b) IN
  [k |-> k.k, c |-> Append(ScrJ(s), b.act)]
  @@ Opt(k.b # <<>>, [b |-> k.b]) @@ Opt(k.z # <<>>, [z |-> k.z])
  @@ Opt(d # <<>>, [r |-> d])
  @@ Opt(a.st # b.st, [st |-> StyleKey(b.st)])
  @@ Opt(a.vf # b.vf, [vf |-> [i \in 1..6 |-> IF b.vf[i] THEN 1 ELSE 0]])
  @@ Opt(a.vi # b.vi, [vi |-> b.vi])
  @@ Opt(a.kb[a.act] # b.kb[b.act], [kb |-> <<b.kb[b.act].f, Len(b.kb[b.act].stack)>>])
  @@ Opt(b.out # <<>>, [o |-> b.out]) @@ Opt(b.bell # 0, [bell |-> b.bell])
  @@ Opt(b.ev # <<>>, [ev |-> b.ev])
  @@ Opt(b.sback # <<>>, [sb |-> [i \in 1..Len(b.sback) |-> RowJ(b.sback[i])]])

Trail(b) ==
  [main |-> RowsJ(b.scr[1]), alt |-> RowsJ(b.scr[2]),
   mc |-> ScrJ(b.scr[1]), ac |-> ScrJ(b.scr[2]),
   kb |-> <<b.kb[1].f, b.kb[2].f>>, act |-> b.act, vs |-> b.vs,
   ok |-> IF b.p = Ground THEN 1 ELSE 0]
=============================================================================

------------------------------ MODULE StrEnum ------------------------------
(***************************************************************************)
(* Very long control sequences and strings.  A sequence a u^n b whose      *)
(* middle repeats puts the terminal in the same state for every n beyond   *)
(* a few repetitions, apart from the payload an OSC string delivers; so    *)
(* the state after n repetitions is that after Few(n), with the payload    *)
(* put in.  PumpOK checks this against the byte-level specification for    *)
(* the short lengths; the long ones (past 4096, 65536, 131072) go to the   *)
(* harness with what they must do.                                         *)
(***************************************************************************)
EXTENDS TermJson, TermProps, SequencesExt

Buf     == IOEnv.BUF
Mode    == IOEnv.MODE
OutFile == IOEnv.OUT
Shard   == atoi(IOEnv.SHARD)
NShard  == atoi(IOEnv.NSHARD)
Checked == IOEnv.CHECK = "1"      \* the short lengths, checked; otherwise the long ones, written

OSC == <<27, 93>>   DCS == <<27, 80>>   CSIb == <<27, 91>>
BEL == <<7>>  ST == <<27, 92>>  ST8 == <<156>>

\* <<kind, a, u, b, string (0: none), payload in front of the repetitions, payload behind them>>
OscP(num, i, u, e) == <<"osc", OSC \o num \o <<59, 80>>, u, <<81>> \o e, i, <<80>>, <<81>>>>
Pumped == <<
  OscP(<<48>>, 1, <<120>>, BEL), OscP(<<50>>, 1, <<97, 59>>, ST), OscP(<<54>>, 2, <<195, 156>>, BEL), OscP(<<55>>, 3, <<228, 184, 150>>, ST8),
  OscP(<<50>>, 1, <<27>>, BEL), OscP(<<55>>, 3, <<0, 255>>, ST), OscP(<<57>>, 0, <<120, 121>>, BEL), OscP(<<48, 48, 55>>, 3, <<27, 91, 65>>, BEL),
  OscP(<<54>>, 2, <<10, 24, 26>>, ST),
  \* a number with many zeros
  <<"osc", OSC, <<48>>, <<50, 59, 84>> \o BEL, 1, <<84>>, <<-1>>>>,
  <<"osc", OSC, <<57>>, <<59, 84>> \o BEL, 0, <<>>, <<>>>>,
  <<"dcs", DCS, <<120>>, ST, 0, <<>>, <<>>>>, <<"dcs", DCS, <<7, 27>>, <<65>> \o ST, 0, <<>>, <<>>>>, <<"dcs", DCS, <<195, 156>>, ST8, 0, <<>>, <<>>>>,
  <<"csi", CSIb, <<48>>, <<51, 67>>, 0, <<>>, <<>>>>, <<"csi", CSIb, <<57>>, <<68>>, 0, <<>>, <<>>>>, <<"csi", CSIb, <<57>>, <<66>>, 0, <<>>, <<>>>>,
  <<"csi", CSIb, <<59>>, <<109>>, 0, <<>>, <<>>>>, <<"csi", CSIb, <<49, 59>>, <<52, 109>>, 0, <<>>, <<>>>>, <<"csi", CSIb, <<51, 49, 59, 52, 52, 59>>, <<109>>, 0, <<>>, <<>>>>,
  <<"csi", CSIb \o <<63>>, <<55, 59>>, <<50, 53, 108>>, 0, <<>>, <<>>>>, <<"csi", CSIb, <<33>>, <<112>>, 0, <<>>, <<>>>>, <<"csi", CSIb, <<63>>, <<67>>, 0, <<>>, <<>>>>,
  <<"csi", CSIb, <<50, 59>>, <<72>>, 0, <<>>, <<>>>>, <<"csi", CSIb \o <<49>>, <<58, 51>>, <<109>>, 0, <<>>, <<>>>>,
  <<"csi", CSIb, <<48>>, <<54, 110>>, 0, <<>>, <<>>>>, <<"csi", CSIb \o <<62, 48>>, <<59, 48>>, <<99>>, 0, <<>>, <<>>>>,
  <<"esc", <<27>>, <<32>>, <<70>>, 0, <<>>, <<>>>>, <<"esc", <<27>>, <<35, 40>>, <<66>>, 0, <<>>, <<>>>>,
  <<"c0", <<>>, <<0>>, <<13>>, 0, <<>>, <<>>>>, <<"bs", <<>>, <<8>>, <<>>, 0, <<>>, <<>>>>, <<"ht", <<>>, <<9>>, <<>>, 0, <<>>, <<>>>>, <<"cr", <<>>, <<13>>, <<8>>, 0, <<>>, <<>>>>
>>
Short == <<0, 1, 2, 3, 41, 47, 64>>
Long  == <<4093, 4094, 4095, 4096, 4097, 8190, 8193, 16384, 32769, 65533, 65536, 65537, 131073>>
Lens  == IF Checked THEN Short ELSE Long
NCase == Len(Pumped) * Len(Lens)
CaseP(c) == Pumped[((c - 1) \div Len(Lens)) + 1]
CaseN(c) == Lens[((c - 1) % Len(Lens)) + 1]

\* longer units with the longest counts would only be more of the same
Skip(c) == CaseN(c) * Len(CaseP(c)[3]) > 140000
Few(n) == IF n <= 40 THEN n ELSE 40

Repeat(u, n) == IF Len(u) = 1 THEN [i \in 1..n |-> u[1]] ELSE [i \in 1..n * Len(u) |-> u[((i - 1) % Len(u)) + 1]]
Whole(p, n) == p[2] \o Repeat(p[3], n) \o p[4]
\* the payload an OSC string must deliver
Payload(p, n) == IF p[7] = <<-1>> THEN p[6] ELSE p[6] \o Repeat(p[3], n) \o p[7]
PutIn(s, p, n) ==
  IF p[5] = 0 THEN s
  ELSE [s EXCEPT !.vs[p[5]] = Payload(p, n),
                 !.ev = [i \in 1..Len(@) |-> IF @[i][1] = "s" THEN <<"s", p[5]>> \o Payload(p, n) ELSE @[i]]]
Outcome(s, p, n) == PutIn(Feed(Fresh(s), Whole(p, Few(n))), p, n)

VARIABLES c, t, prev, tok, log
vars == <<c, t, prev, tok, log>>
View == c

Tok(k, b) == [k |-> k, b |-> b, z |-> <<>>]
W == 7  H == 3
Before == Tok("text", <<97, 98, 99>>)
After == << Tok("text", <<88, 195, 169, 89>>), Tok("cpr", CSIb \o <<54, 110>>), Tok("text", <<90>>) >>

Step(s, k) == Feed(Fresh(s), k.b)
Cases == { x \in 1..NCase : x % NShard = Shard /\ ~Skip(x) }
Init == /\ c = 0 /\ t = NewTerminal(W, H, Buf, Mode) /\ prev = t /\ tok = Tok("none", <<>>) /\ log = <<>>
Next ==
  /\ c = 0
  /\ \E x \in Cases :
     LET p == CaseP(x)
         s0 == NewTerminal(W, H, Buf, Mode)
         s1 == Step(s0, Before)
         k == Tok(p[1], Whole(p, CaseN(x)))
         s2 == Outcome(s1, p, CaseN(x))
         s3 == Step(s2, After[1])  s4 == Step(s3, After[2])  s5 == Step(s4, After[3])
         lg == << Image(s0, s1, Before), Image(s1, s2, k), Image(s2, s3, After[1]), Image(s3, s4, After[2]), Image(s4, s5, After[3]) >> IN
     /\ c' = x /\ prev' = s1 /\ tok' = k /\ t' = s2 /\ log' = lg
     /\ IF Checked THEN TRUE
        ELSE AppendLine(ToJson([w |-> W, h |-> H, buf |-> Buf, mode |-> Mode, profile |-> "pump", legal |-> 0, steps |-> lg, trail |-> Trail(s5)]), OutFile)
Spec == Init /\ [][Next]_vars

PumpOK == c # 0 /\ Checked => t = Feed(Fresh(prev), tok.b)
\* nothing of it is left over, and nothing of it was drawn
Clear  == c # 0 => t.p = Ground /\ TermOK(t) /\ (tok.k \in {"osc", "dcs", "esc"} => t.scr = prev.scr)
=============================================================================

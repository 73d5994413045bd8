------------------------------ MODULE RunEnum ------------------------------
(***************************************************************************)
(* Very long runs of complete functions: a u^n b where u is one or several  *)
(* whole control functions or characters.  After some repetitions the       *)
(* terminal is in a cycle of per repetitions; what it announces, answers    *)
(* and scrolls off in one round of the cycle it does in every round.        *)
(* CycleOK makes TLC check the cycle, RunOK the outcome put together this way *)
(* against the byte-level specification, for the short lengths.             *)
(***************************************************************************)
EXTENDS TermJson, TermProps, SequencesExt

Buf     == IOEnv.BUF
Mode    == IOEnv.MODE
OutFile == IOEnv.OUT
Shard   == atoi(IOEnv.SHARD)
NShard  == atoi(IOEnv.NSHARD)
Checked == IOEnv.CHECK = "1"

E0(f)  == <<27, f>>
CSI(x) == <<27, 91>> \o x
WrapOn == CSI(<<63, 55, 104>>)
NoWrap == CSI(<<63, 55, 108>>)
Home   == CSI(<<72>>)
Alt    == CSI(<<63, 49, 48, 52, 57, 104>>)
Main   == CSI(<<63, 49, 48, 52, 57, 108>>)
Reg    == CSI(<<50, 59, 51, 114>>)

\* <<kind, a, u, b, per, weight of one repetition>>
Cycles == <<
  <<"lf", <<>>, <<10>>, <<>>, 1>>, <<"lf", Reg, <<10>>, <<>>, 1>>, <<"lf", <<>>, <<65, 10>>, <<>>, 1>>, <<"lf", WrapOn, <<65, 9, 66, 13, 10>>, <<>>, 1>>, <<"lf", Alt, <<10>>, Main, 1>>,
  <<"bel", <<>>, <<7>>, <<>>, 1>>,
  <<"ri", <<>>, E0(77), <<>>, 1>>, <<"ind", Reg, E0(68), Home, 1>>,
  <<"su", <<>>, CSI(<<83>>), <<>>, 1>>, <<"sd", Reg, CSI(<<84>>), <<>>, 1>>, <<"su", <<>>, CSI(<<83>>) \o CSI(<<84>>), <<>>, 1>>,
  <<"il", Home, CSI(<<76>>), <<>>, 1>>, <<"dl", Home, CSI(<<77>>), <<>>, 1>>, <<"dl", <<>>, CSI(<<77>>) \o CSI(<<76>>) \o <<67>>, <<>>, 1>>,
  <<"dch", Home, CSI(<<80>>), <<>>, 1>>, <<"dch", Home, <<68>> \o CSI(<<80>>) \o <<8>>, <<>>, 1>>, <<"ech", <<>>, CSI(<<88>>), <<>>, 1>>,
  <<"ed", <<>>, CSI(<<74>>), <<>>, 1>>, <<"el", <<>>, CSI(<<49, 75>>) \o <<69>>, <<>>, 1>>, <<"ed", <<>>, CSI(<<50, 74>>), <<>>, 1>>,
  <<"text", WrapOn, <<97, 98, 99, 100, 101, 102, 103>>, <<>>, 1>>, <<"text", WrapOn, <<120>>, <<>>, 7>>, <<"text", NoWrap, <<121>>, <<>>, 1>>, <<"text", WrapOn, <<228, 184, 150>>, <<>>, 3>>,
  <<"text", NoWrap, <<228, 184, 150>>, <<>>, 1>>, <<"text", WrapOn, <<195, 169, 228, 184, 150>>, <<>>, 2>>, <<"bad", WrapOn, <<255>>, <<>>, 7>>, <<"bad", WrapOn, <<226, 130, 65>>, <<>>, 7>>,
  <<"text", WrapOn \o Home, <<97, 8>>, <<>>, 1>>, <<"text", WrapOn \o Reg \o CSI(<<51, 72>>), <<97, 98, 99, 100, 101, 102, 103>>, <<>>, 1>>,
  <<"sgr", <<>>, CSI(<<51, 49, 109>>) \o CSI(<<48, 109>>), <<>>, 1>>, <<"sgr", <<>>, CSI(<<49, 109>>) \o <<97>> \o CSI(<<50, 50, 109>>) \o <<98, 13>>, <<>>, 1>>,
  <<"sc", <<>>, CSI(<<115>>) \o CSI(<<51, 59, 51, 72>>) \o CSI(<<117>>), <<>>, 1>>, <<"cup", <<>>, CSI(<<50, 59, 52, 72>>) \o <<81>>, <<>>, 1>>,
  <<"cuf", <<>>, CSI(<<67>>), <<>>, 1>>, <<"cub", <<>>, CSI(<<68>>), <<>>, 1>>, <<"cuu", <<>>, CSI(<<65>>) \o CSI(<<66>>), <<>>, 1>>, <<"ht", <<>>, <<9, 13>>, <<>>, 1>>,
  <<"alt", <<>>, Alt \o Main, <<>>, 1>>, <<"alt", <<>>, Alt \o <<97>> \o Main \o <<98, 8>>, <<>>, 7>>, <<"alt", <<>>, Alt, <<>>, 1>>, <<"alt", Alt, Main, <<>>, 1>>,
  <<"wrap", <<>>, NoWrap \o WrapOn, <<>>, 1>>, <<"mode", <<>>, CSI(<<63, 50, 53, 108>>) \o CSI(<<63, 50, 53, 104>>), <<>>, 1>>, <<"mode", <<>>, CSI(<<63, 49, 48, 48, 48, 104>>), <<>>, 1>>,
  <<"mode", <<>>, CSI(<<63, 50, 48, 48, 52, 104>>) \o CSI(<<63, 50, 48, 48, 52, 108>>), <<>>, 1>>,
  <<"stbm", <<>>, CSI(<<50, 59, 51, 114>>) \o CSI(<<114>>), <<>>, 1>>,
  <<"kbpush", <<>>, CSI(<<62, 49, 117>>), <<>>, 1>>, <<"kbpush", <<>>, CSI(<<62, 51, 117>>), CSI(<<60, 117>>) \o CSI(<<63, 117>>), 1>>, <<"kbpush", <<>>, CSI(<<62, 49, 117>>) \o CSI(<<60, 117>>), <<>>, 1>>,
  <<"kbpush", <<>>, CSI(<<62, 49, 117>>) \o CSI(<<62, 53, 117>>), CSI(<<60, 51, 49, 117>>), 1>>, <<"kbpop", CSI(<<62, 55, 117>>), CSI(<<60, 117>>), <<>>, 1>>, <<"kbset", <<>>, CSI(<<61, 49, 59, 50, 117>>) \o CSI(<<61, 49, 59, 51, 117>>), <<>>, 1>>,
  <<"kbpush", Alt, CSI(<<62, 49, 117>>), Main, 1>>, <<"kbq", <<>>, CSI(<<63, 117>>), <<>>, 1>>,
  <<"dsr", <<>>, CSI(<<53, 110>>), <<>>, 1>>, <<"cpr", <<>>, CSI(<<54, 110>>), <<>>, 1>>, <<"da1", <<>>, CSI(<<99>>), <<>>, 1>>, <<"da2", <<>>, CSI(<<62, 99>>), <<>>, 1>>, <<"cpr", WrapOn, <<65>> \o CSI(<<54, 110>>), <<>>, 7>>,
  <<"osc", <<>>, <<27, 93, 48, 59, 116, 7>>, <<>>, 1>>, <<"osc", <<>>, <<27, 93, 54, 59, 27, 92, 27, 93, 55, 59, 47, 27, 92>>, <<>>, 1>>, <<"dcs", <<>>, <<27, 80, 120, 27, 92>>, <<>>, 1>>,
  <<"csi", <<>>, CSI(<<33, 112>>), <<>>, 1>>, <<"esc", <<>>, <<27, 40, 66>>, <<>>, 1>>, <<"esc", <<>>, <<27, 27>>, <<67>>, 1>>, <<"keypad", <<>>, <<27, 61, 27, 62>>, <<>>, 1>>
>>
Short == <<0, 1, 33, 48, 63, 64, 81, 82>>
Long  == <<129, 257, 1025, 4097, 32769, 65537>>
Lens  == IF Checked THEN Short ELSE Long
NCase == Len(Cycles) * Len(Lens)
CaseP(c) == Cycles[((c - 1) \div Len(Lens)) + 1]
CaseN(c) == Lens[((c - 1) % Len(Lens)) + 1]
Base0 == 47                       \* repetitions after which the cycle has been entered

RepSeq(u, n) == LET l == Len(u) IN IF l = 0 \/ n = 0 THEN <<>> ELSE [i \in 1..n * l |-> u[((i - 1) % l) + 1]]
WholeR(p, n) == p[2] \o RepSeq(p[3], n) \o p[4]

Join(x, y, k, z, e, f(_)) == f(x) \o RepSeq(f(y), k) \o f(z) \o f(e)
FOut(x) == x.out  FEv(x) == x.ev  FSb(x) == x.sback
Round(s, p) == LET A == Feed(Fresh(s), p[2] \o RepSeq(p[3], Base0)) IN <<A, Feed(Fresh(A), RepSeq(p[3], p[5]))>>
Outcome(s, p, n) ==
  IF n <= Base0 THEN Feed(Fresh(s), WholeR(p, n))
  ELSE LET AB == Round(s, p)  A == AB[1]  B == AB[2]
           rest == (n - Base0) % p[5]  k == (n - Base0 - rest) \div p[5]
           R == Feed(Fresh(A), RepSeq(p[3], rest))
           X == Feed(Fresh(R), p[4]) IN
       [X EXCEPT !.out = Join(A, B, k, R, X, FOut), !.ev = Join(A, B, k, R, X, FEv), !.sback = Join(A, B, k, R, X, FSb),
                 !.bell = A.bell + k * B.bell + R.bell + X.bell]

VARIABLES c, t, prev, tok, log
vars == <<c, t, prev, tok, log>>
View == c

Tok(k, b) == [k |-> k, b |-> b, z |-> <<>>]
W == 7  H == 3
Before == Tok("text", <<97, 98, 99>>)
After == << Tok("text", <<88, 195, 169, 89>>), Tok("cpr", CSI(<<54, 110>>)), Tok("text", <<90>>) >>

Step(s, k) == Feed(Fresh(s), k.b)
Cases == { x \in 1..NCase : x % NShard = Shard }
Init == /\ c = 0 /\ t = NewTerminal(W, H, Buf, Mode) /\ prev = t /\ tok = Tok("none", <<>>) /\ log = <<>>
Next ==
  /\ c = 0
  /\ \E x \in Cases :
     LET p == CaseP(x)
         s0 == NewTerminal(W, H, Buf, Mode)
         s1 == Step(s0, Before)
         k == Tok(p[1], WholeR(p, CaseN(x)))
         s2 == Outcome(s1, p, CaseN(x))
         s3 == Step(s2, After[1])  s4 == Step(s3, After[2])  s5 == Step(s4, After[3])
         lg == << Image(s0, s1, Before), Image(s1, s2, k), Image(s2, s3, After[1]), Image(s3, s4, After[2]), Image(s4, s5, After[3]) >> IN
     /\ c' = x /\ prev' = s1 /\ tok' = k /\ t' = s2 /\ log' = lg
     /\ IF Checked THEN TRUE
        ELSE AppendLine(ToJson([w |-> W, h |-> H, buf |-> Buf, mode |-> Mode, profile |-> "runs", legal |-> 0, steps |-> lg, trail |-> Trail(s5)]), OutFile)
Spec == Init /\ [][Next]_vars

CycleOK == c # 0 => LET AB == Round(prev, CaseP(c)) IN Fresh(AB[2]) = Fresh(AB[1])
RunOK == c # 0 /\ Checked => t = Feed(Fresh(prev), tok.b)
ShapeOK == c # 0 => t.p = Ground /\ TermOK(t)
=============================================================================

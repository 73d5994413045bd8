----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validates recorded executions of the real terminal against Terminal.    *)
(*                                                                         *)
(* An execution is a list of events.  In an event the backend returned     *)
(* bytes b from one Read while other goroutines used the API: thr is, per  *)
(* goroutine, what it did, in its order:                                   *)
(*   [o "resize", z <<w, h>>]                                              *)
(*   [o "key" | "mouse", z the event, got the bytes it wrote]              *)
(*   [o "snap", s]   a snapshot taken by one holder of the lock            *)
(* out and bell are the replies and bells of the event, fin the snapshot   *)
(* after it.                                                               *)
(*                                                                         *)
(* Every effect of a byte, and every call, is indivisible; the execution   *)
(* conforms iff some interleaving of the goroutines with the bytes of each *)
(* event explains all that was recorded.  TLC searches for it: a trace     *)
(* none of whose behaviours reaches the last event has no explanation.     *)
(* With no calls this is plain conformance of a byte stream.               *)
(***************************************************************************)
EXTENDS TermJson

TraceFile == IOEnv.TRACES
OutFile == IOEnv.OUT
Shard == atoi(IOEnv.SHARD)
NShard == atoi(IOEnv.NSHARD)
Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr,   \* number of the trace
          ev,   \* events completed
          j,    \* bytes of the event consumed
          pc,   \* calls completed, per goroutine
          t
vars == <<tr, ev, j, pc, t>>

E == Traces[tr].ev[ev + 1]
More == ev < Len(Traces[tr].ev)
Pcs(n, e) == IF e >= Len(Traces[n].ev) THEN <<>> ELSE [i \in 1..Len(Traces[n].ev[e + 1].thr) |-> 0]

Init ==
  /\ tr \in {i \in 1..Len(Traces) : i % NShard = Shard}
  /\ ev = 0 /\ j = 0 /\ pc = Pcs(tr, 0)
  /\ t = NewTerminal(Traces[tr].w, Traces[tr].h, Traces[tr].buf, Traces[tr].mode)

B01(x) == IF x THEN 1 ELSE 0
Snapshot(s) ==
  [rows |-> RowsJ(Cur(s)), c |-> <<Cur(s).cx, Cur(s).cy, Cur(s).top, Cur(s).bot, B01(Cur(s).wrap)>>,
   st |-> StyleKey(s.st), vf |-> [i \in 1..6 |-> B01(s.vf[i])], vi |-> s.vi, vs |-> s.vs, kb |-> s.kb[s.act].f, act |-> s.act]
\* cheap parts first
Agrees(o, s) ==
  /\ o.act = s.act /\ o.kb = s.kb[s.act].f /\ o.vi = s.vi
  /\ o.c = <<Cur(s).cx, Cur(s).cy, Cur(s).top, Cur(s).bot, B01(Cur(s).wrap)>>
  /\ o = Snapshot(s)

Consume ==
  /\ More /\ j < Len(E.b)
  /\ t' = TLCEval(IF j + 1 = Len(E.b) THEN FlushCluster(StepByte(t, E.b[j + 1])) ELSE StepByte(t, E.b[j + 1]))
  /\ j' = j + 1
  /\ UNCHANGED <<tr, ev, pc>>

Do(i) ==
  LET o == E.thr[i][pc[i] + 1] IN
  /\ CASE o.o = "resize" -> t' = TLCEval(Resize(t, o.z[1], o.z[2]))
       [] o.o = "snap"  -> Agrees(o.s, t) = TRUE /\ UNCHANGED t
       [] o.o = "key"   -> o.got = EncodeAll(KB!Enc(KeyEvent(o.z), KbConfig(t))) /\ UNCHANGED t
       [] o.o = "mouse" -> o.got = MS!Bytes(MouseEvent(o.z), t.vi[1], t.vi[2]) /\ UNCHANGED t
  /\ pc' = [pc EXCEPT ![i] = @ + 1]
  /\ UNCHANGED <<tr, ev, j>>
Calls == More /\ \E i \in DOMAIN pc : pc[i] < Len(E.thr[i]) /\ Do(i)

Close ==
  /\ More /\ j = Len(E.b) /\ \A i \in DOMAIN pc : pc[i] = Len(E.thr[i])
  /\ E.out = t.out /\ E.bell = t.bell
  /\ Agrees(E.fin, t)
  /\ ev' = ev + 1 /\ j' = 0 /\ pc' = Pcs(tr, ev + 1)
  /\ t' = Fresh(t)
  /\ AppendLine(ToString(tr) \o " " \o ToString(ev + 1), OutFile)
  /\ UNCHANGED tr

Next == Consume \/ Calls \/ Close
Spec == Init /\ [][Next]_vars
Sane == TermOK(t)
=============================================================================

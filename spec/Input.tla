------------------------------- MODULE Input -------------------------------
(* The user's side of the terminal: key and mouse events, sent in whatever *)
(* configuration the application's output has selected so far.  An event   *)
(* changes nothing but what is written to the application.                 *)
(*                                                                         *)
(* An input step is k = [k kind, b bytes, z numbers]:                      *)
(*   "key"    z = <<code, rune, mod, event, shifted, base>> \o text        *)
(*   "mouse"  z = <<button, press, flags, x, y>>                           *)
(*   "resize" z = <<width, height>>                                        *)
(*   anything else: b is output of the application                         *)
EXTENDS Terminal
KB == INSTANCE Keys
MS == INSTANCE Mouse

KbConfig(t) == [f |-> t.kb[t.act].f, mok |-> t.vi[3], app |-> t.vf[5]]
KeyEvent(z) == [code |-> z[1], rune |-> z[2], mod |-> z[3], ev |-> z[4], shifted |-> z[5], base |-> z[6], text |-> SubSeq(z, 7, Len(z))]
MouseEvent(z) == [btn |-> z[1], press |-> z[2] = 1, mods |-> z[3], x |-> z[4], y |-> z[5]]
EncodeAll(cps) == FlattenSeq([i \in 1..Len(cps) |-> Encode8(cps[i])])

SendKey(t, z) == Reply(t, EncodeAll(KB!Enc(KeyEvent(z), KbConfig(t))))
SendMouse(t, z) == Reply(t, MS!Bytes(MouseEvent(z), t.vi[1], t.vi[2]))

Apply(t, k) ==
  CASE k.k = "resize" -> Resize(Fresh(t), k.z[1], k.z[2])
    [] k.k = "key" -> SendKey(Fresh(t), k.z)
    [] k.k = "mouse" -> SendMouse(Fresh(t), k.z)
    [] OTHER -> Feed(Fresh(t), k.b)

--------------------------------------------------------------------------
InputKinds == {"key", "mouse"}
NoOut(t) == [Fresh(t) EXCEPT !.out = <<>>]
\* the last of several releases or presses of a number
RECURSIVE CodePoints(_, _)
CodePoints(s, out) ==
  IF s = <<>> THEN out
  ELSE LET n == IF s[1] < 128 THEN 1 ELSE NeedOf(s[1])
       IN CodePoints(SubSeq(s, n + 1, Len(s)), Append(out, IF n = 1 THEN s[1] ELSE Decode8(SubSeq(s, 1, n))))

P12(a, k, b) ==
  k.k = "key" => /\ NoOut(b) = Fresh(a)
                 /\ KB!KeyInv(KeyEvent(k.z), KbConfig(a), CodePoints(b.out, <<>>))
P13(a, k, b) ==
  k.k = "mouse" => /\ NoOut(b) = Fresh(a)
                   /\ MS!MouseInv(MouseEvent(k.z), a.vi[1], a.vi[2], b.out)
=============================================================================

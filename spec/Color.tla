------------------------------- MODULE Color -------------------------------
(* Answers of the code about colours, judged. *)
EXTENDS Palette

(* ---- what the code said *)
InitSet(cfg) == {[n |-> 0]}
Fine(ev) ==
  CASE ev.k = "adapt" -> /\ ev.fg \in Params(ev.c, ev.cap, TRUE) /\ ev.bg \in Params(ev.c, ev.cap, FALSE)
                         /\ ev.border \in Params(ev.c, ev.cap, TRUE)
    [] ev.k = "hex" -> IF HexOk(ev.t) THEN ev.ok /\ ev.c = HexRGB(ev.t) /\ ev.hex = ToHex(ev.c) ELSE ~ev.ok
    [] ev.k = "pal" -> ev.c = Pal(ev.n) /\ ev.hex = ToHex(ev.c) /\ (ev.n < 16 => ev.c16 = ev.c)
    [] ev.k = "rgb" -> ev.got = ev.c /\ ev.hex = ToHex(ev.c) /\ ev.same
Succ(s, ev) == IF Fine(ev) THEN {[n |-> 1]} ELSE {}

(* ---- the palette itself, checked exhaustively: every entry of the cube and ramp stands for itself *)
Cfgs == {[x |-> 0]}
Init0(cfg) == [n |-> 0]
Ops(s) == {[k |-> "next"]}
Apply(s, op) == [n |-> (s.n + 1) % 256]
Obs(s) == Pal(s.n)
Inv(s) == LET c == Pal(s.n) IN
  /\ HexRGB(ToHex(c)) = c /\ HexOk(ToHex(c))
  /\ s.n < 16 => \E m \in Allowed16(c) : Pal(m) = c
  /\ s.n >= 16 /\ ~(Greyish(c) /\ (Mean(c) < 8 \/ Mean(c) > 238)) => \E m \in Allowed256(c) : Pal(m) = c
StepOk(s, op, s2) == TRUE
============================================================================

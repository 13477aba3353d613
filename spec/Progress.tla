------------------------------ MODULE Progress ------------------------------
(* Progress bars and spinners. *)
EXTENDS Base

FULL == 9000 + 9608   \* U+2588
LIGHT == 9000 + 9617  \* U+2591
Init0(cfg) ==
  IF cfg.kind = "bar"
  THEN [kind |-> "bar", w |-> MaxOf(cfg.w, 1), pct |-> Clamp(cfg.pct, 0, 100), fill |-> FULL, empty |-> LIGHT, show |-> FALSE, label |-> <<>>]
  ELSE [kind |-> "spin", frames |-> IF cfg.frames = <<>> THEN <<<<9000 + 8226>>>> ELSE cfg.frames, f |-> 0, label |-> <<>>, ticked |-> TRUE, w |-> 0]

Bound(op) == IF op.big = 0 THEN op.n ELSE 1000 * op.big      \* beyond any percentage
Apply(s0, op) ==
  LET s == IF s0.kind = "spin" THEN [s0 EXCEPT !.ticked = FALSE] ELSE s0 IN
  IF op.k = "label" THEN [s EXCEPT !.label = op.t]
  ELSE IF op.k = "other" THEN s
  ELSE IF s.kind = "bar" THEN
       CASE op.k = "set" -> [s EXCEPT !.pct = Clamp(Bound(op), 0, 100)]
         [] op.k = "inc" -> [s EXCEPT !.pct = Clamp(@ + Bound(op), 0, 100)]
         [] op.k = "dec" -> [s EXCEPT !.pct = Clamp(@ - Bound(op), 0, 100)]
         [] op.k = "fill" -> [s EXCEPT !.fill = op.a]
         [] op.k = "empty" -> [s EXCEPT !.empty = op.a]
         [] op.k = "show" -> [s EXCEPT !.show = op.on]
  ELSE CASE op.k = "tick" -> [s EXCEPT !.f = (@ + 1) % Len(s.frames), !.ticked = TRUE]

Filled(s) == (s.w * s.pct) \div 100
Digit(n) == 1048 + (n % 10)
PctText(p) == <<Digit(p \div 100), Digit(p \div 10), Digit(p), 1037>>
Bar(s) == Rep(s.fill, Filled(s)) \o Rep(s.empty, s.w - Filled(s))
View(s) ==
  IF s.kind = "bar"
  THEN (IF s.label = <<>> THEN <<>> ELSE s.label \o <<SP>>) \o Bar(s) \o (IF s.show THEN <<SP>> \o PctText(s.pct) ELSE <<>>)
  ELSE s.frames[s.f + 1] \o (IF s.label = <<>> THEN <<>> ELSE <<SP>> \o s.label)
Obs(s) == [view |-> View(s), pct |-> IF s.kind = "bar" THEN s.pct ELSE 0, done |-> s.kind = "bar" /\ s.pct = 100,
           tick |-> s.kind = "spin" /\ s.ticked, frozen |-> TRUE]

Inv(s) == s.kind = "bar" =>
            /\ s.pct \in 0..100 /\ Len(Bar(s)) = s.w
            /\ s.pct = 100 <=> Filled(s) = s.w
            /\ s.pct = 0 => Filled(s) = 0
StepOk(s, op, s2) ==
  /\ (op.k = "inc" /\ op.n >= 0 /\ op.big >= 0) => s2.pct >= s.pct
  /\ (op.k = "dec" /\ op.n >= 0 /\ op.big >= 0) => s2.pct <= s.pct
  /\ s.kind = "spin" => Len(s2.frames) = Len(s.frames)
Cfgs == {[kind |-> "bar", w |-> w, pct |-> p] : w \in {-1, 1, 3, 10}, p \in {-5, 0, 33, 99, 100, 101}}
        \cup {[kind |-> "spin", name |-> "", fps |-> 10, frames |-> Take(<<<<1097>>, <<1098, 1099>>, <<2001>>>>, n)] : n \in 0..3}
Ops(s) ==
  IF s.kind = "bar"
  THEN {[k |-> x, n |-> n, big |-> b] : x \in {"set", "inc", "dec"}, n \in {-1, 1, 34, 100}, b \in {-1, 0, 1}} \cup {[k |-> "show", on |-> TRUE], [k |-> "fill", a |-> 1035], [k |-> "label", t |-> <<1108>>]}
  ELSE {[k |-> "tick"], [k |-> "label", t |-> <<1108>>], [k |-> "other"]}
=============================================================================

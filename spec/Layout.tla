------------------------------- MODULE Layout -------------------------------
(* One box, built step by step. *)
EXTENDS LayBox

Init0(cfg) == [b |-> NewBox(cfg.content), pw |-> cfg.pw, ph |-> cfg.ph]
Apply(s, op) == [s EXCEPT !.b = BoxStep(s.b, op)]
Obs(s) == [t |-> Draw(s.b), again |-> TRUE, at |-> Place(s.b, s.pw, s.ph)]
Inv(s) == Rectangle(s.b) /\ LET p == Place(s.b, s.pw, s.ph) IN p[1] \in 0..s.pw /\ p[2] \in 0..s.ph
StepOk(s, op, s2) == s2.b.c = s.b.c

Cfgs == {[content |-> l, pw |-> 12, ph |-> 7] : l \in { << <<1097>> >>, << <<1097, 1098, 1099>>, <<2001>> >>, << <<>>, <<1202, 2004, 1098>>, <<1097>> >> }}
Ops(s) ==
  {[k |-> x, side |-> "all", n |-> 1] : x \in {"pad", "mar"}} \cup {[k |-> "pad", side |-> "vh", n |-> 0, m |-> 2], [k |-> "mar", side |-> "given", q |-> <<1, 0, 0, 2>>]}
  \cup {[k |-> "border", on |-> ~s.b.border]} \cup {[k |-> "size", v |-> v, n |-> n] : v \in {"w", "h"}, n \in {-1, 2, 7}}
  \cup {[k |-> "size", v |-> "minw", n |-> 4], [k |-> "size", v |-> "maxw", n |-> 5], [k |-> "size", v |-> "minh", n |-> 2], [k |-> "size", v |-> "maxh", n |-> 4]}
  \cup {[k |-> "align", h |-> "center", v |-> "middle"], [k |-> "align", h |-> "right", v |-> "bottom"]}
============================================================================

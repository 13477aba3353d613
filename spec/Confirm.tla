------------------------------ MODULE Confirm ------------------------------
(* A confirmation dialog: a title, two or three buttons, one of them focused, and at most one answer. *)
EXTENDS Base

Yes == <<1089, 1101, 1115>>
No == <<1078, 1111>>
Cancel == <<1067, 1097, 1110, 1099, 1101, 1108>>
Lower(a) == IF a \in 1065..1090 THEN a + 32 ELSE a

Init0(cfg) == [title |-> cfg.title, desc |-> <<>>, btn |-> <<Yes, No>>, foc |-> 1, res |-> 0, msg |-> 0]

N(s) == Len(s.btn)
\* the answer a button stands for: the well-known labels speak for themselves, else the first one affirms
ResultOf(s, k) == CASE s.btn[k] = Yes -> 1 [] s.btn[k] = No -> 2 [] s.btn[k] = Cancel -> 3 [] OTHER -> IF k = 1 THEN 1 ELSE 2
Answer(s, r) == [s EXCEPT !.res = r, !.msg = r]
Choose(s, k) == Answer([s EXCEPT !.foc = k - 1], ResultOf(s, k))
Move(s, d) == [s EXCEPT !.foc = (@ + d + N(s)) % N(s)]
Matches(s, a) == {k \in 1..N(s) : s.btn[k] # <<>> /\ Lower(s.btn[k][1]) = Lower(a)}

KeyAct(s, op) ==
  IF s.res # 0 THEN s
  ELSE CASE op.key \in {"left", "shift+tab"} -> Move(s, -1)
         [] op.key \in {"right", "tab"} -> Move(s, 1)
         [] op.key = "enter" -> Choose(s, s.foc + 1)
         [] op.key \in {"esc", "ctrl+c"} -> Answer(s, 3)
         [] op.key = "rune" -> IF Matches(s, op.r) = {} THEN s ELSE Choose(s, Min(Matches(s, op.r)))
         [] OTHER -> s

SetBtn(s, b) == [s EXCEPT !.btn = b, !.foc = MinOf(@, Len(b) - 1)]
Apply(s0, op) ==
  LET s == [s0 EXCEPT !.msg = 0] IN
  CASE op.k = "key" -> KeyAct(s, op)
    [] op.k = "desc" -> [s EXCEPT !.desc = op.t]
    [] op.k = "affirmative" -> [s EXCEPT !.btn[1] = op.t]
    [] op.k = "negative" -> [s EXCEPT !.btn[2] = op.t]
    [] op.k = "cancel" -> IF op.on THEN (IF N(s) = 2 THEN SetBtn(s, Append(s.btn, Cancel)) ELSE s) ELSE SetBtn(s, Take(s.btn, 2))
    [] op.k = "defyes" -> [s EXCEPT !.foc = 0]
    [] op.k = "defno" -> [s EXCEPT !.foc = (IF \E k \in 1..N(s) : s.btn[k] = No THEN Min({k \in 1..N(s) : s.btn[k] = No}) ELSE N(s)) - 1]
    [] OTHER -> s                                    \* messages of other kinds

Btn(s, k) == IF k - 1 = s.foc THEN <<1091, SP>> \o s.btn[k] \o <<SP, 1093>> ELSE <<1040, SP>> \o s.btn[k] \o <<SP, 1041>>
Row(s) == Cat([k \in 1..N(s) |-> (IF k > 1 THEN <<SP, SP>> ELSE <<>>) \o Btn(s, k)])
View(s) == <<s.title>> \o (IF s.desc = <<>> THEN <<>> ELSE <<s.desc>>) \o <<<<>>, Row(s)>>

Obs(s) == [done |-> s.res # 0, res |-> s.res, yes |-> s.res = 1, no |-> s.res = 2, cancelled |-> s.res = 3,
           msg |-> s.msg, view |-> View(s), frozen |-> TRUE]

Inv(s) == /\ s.foc \in 0..(N(s) - 1)
          /\ s.res \in 0..3
          /\ s.msg # 0 => s.res = s.msg
StepOk(s, op, s2) ==
  /\ s.res # 0 => s2.res = s.res /\ s2.msg = 0       \* answered at most once
  /\ op.k # "key" => s2.res = s.res
  /\ (s2.res # s.res) => op.key \in {"enter", "esc", "ctrl+c", "rune"}

Cfgs == {[title |-> <<1081>>]}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"left", "right", "tab", "shift+tab", "enter", "esc", "ctrl+c", "up"}}
  \cup {[k |-> "key", key |-> "rune", r |-> x] : x \in {1121, 1078, 1099, 1209}}
  \cup {[k |-> "cancel", on |-> TRUE], [k |-> "cancel", on |-> FALSE], [k |-> "defyes"], [k |-> "defno"],
        [k |-> "affirmative", t |-> <<1209, 1203>>], [k |-> "negative", t |-> Cancel], [k |-> "other", m |-> "size"]}
=============================================================================

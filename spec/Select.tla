------------------------------ MODULE Select ------------------------------
(* Single and multiple choice from a list that can be filtered by typing.  cfg.multi says which.
   Option values are the options' positions, so every value names one option. *)
EXTENDS Base, Words

Match(f, label, q) == CASE f = "pre" -> Len(q) <= Len(label) /\ Take(label, Len(q)) = q
                       [] f = "suf" -> Len(q) <= Len(label) /\ Drop(label, Len(label) - Len(q)) = q
                       [] OTHER -> Within(LowT(q), LowT(label))
Shown(s) == SelectSeq([k \in 1..Len(s.opts) |-> k], LAMBDA k : Match(s.filter, s.opts[k].label, s.q))

Init0(cfg) == [multi |-> cfg.multi, title |-> cfg.title, opts |-> cfg.opts, cur |-> 0, sel |-> {}, q |-> <<>>, h |-> 10,
               filterable |-> FALSE, filter |-> "sub", render |-> "std", min |-> 0, max |-> 0,
               msg |-> [k |-> "none", ok |-> FALSE, v |-> <<>>]]

Limit(s) == s.max
Need(s) == IF s.max > 0 THEN MinOf(s.min, s.max) ELSE s.min
Room(s) == s.max = 0 \/ Cardinality(s.sel) < s.max
Sorted(set) == SetToSortSeq(set, <)
Requery(s, q) == LET t == [s EXCEPT !.q = q] IN [t EXCEPT !.cur = MaxOf(0, MinOf(@, Len(Shown(t)) - 1))]
\* the option under the cursor, as a set of at most one
Under(s) == IF s.cur < Len(Shown(s)) THEN {Shown(s)[s.cur + 1]} ELSE {}
Usable(s) == {k \in Under(s) : ~s.opts[k].dis}

RECURSIVE AddAll(_, _)
AddAll(s, q) == IF q = <<>> THEN s ELSE AddAll(IF Head(q) \notin s.sel /\ Room(s) THEN [s EXCEPT !.sel = @ \cup {Head(q)}] ELSE s, Tail(q))

Confirm(s) ==
  IF s.multi THEN IF Cardinality(s.sel) >= Need(s) THEN [s EXCEPT !.msg = [k |-> "confirm", ok |-> TRUE, v |-> Sorted(s.sel)]] ELSE s
  ELSE IF Usable(s) = {} THEN [s EXCEPT !.msg = [k |-> "confirm", ok |-> FALSE, v |-> <<>>]]
  ELSE [s EXCEPT !.sel = Usable(s), !.msg = [k |-> "confirm", ok |-> TRUE, v |-> Sorted(Usable(s))]]
Toggle(s) ==
  IF Usable(s) \cap s.sel # {} THEN [s EXCEPT !.sel = @ \ Usable(s)]
  ELSE IF Usable(s) # {} /\ Room(s) THEN [s EXCEPT !.sel = @ \cup Usable(s)] ELSE s

Type(s, a) == IF s.filterable THEN Requery(s, Append(s.q, a)) ELSE s
Up(s) == [s EXCEPT !.cur = MaxOf(0, @ - 1)]
Down(s) == [s EXCEPT !.cur = IF @ < Len(Shown(s)) - 1 THEN @ + 1 ELSE @]
Top(s) == [s EXCEPT !.cur = 0]
Bottom(s) == [s EXCEPT !.cur = MaxOf(0, Len(Shown(s)) - 1)]
Rune(s, a) ==
  CASE a = 1107 -> Up(s) [] a = 1106 -> Down(s) [] a = 1103 -> Top(s) [] a = 1071 -> Bottom(s)
    [] a = 1097 /\ s.multi -> AddAll(s, SelectSeq(Shown(s), LAMBDA k : ~s.opts[k].dis))
    [] a = 1110 /\ s.multi -> [s EXCEPT !.sel = {}]
    [] OTHER -> Type(s, a)
KeyAct(s, op) ==
  CASE op.key = "up" -> Up(s) [] op.key = "down" -> Down(s) [] op.key = "home" -> Top(s) [] op.key = "end" -> Bottom(s)
    [] op.key = "enter" -> Confirm(s)
    [] op.key = "esc" -> Requery(s, <<>>)
    [] op.key = "ctrl+c" -> [s EXCEPT !.msg = [k |-> "quit", ok |-> TRUE, v |-> <<>>]]
    [] op.key = "space" -> IF s.multi THEN Toggle(s) ELSE Type(s, SP)
    [] op.key = "backspace" -> IF s.filterable /\ s.q # <<>> THEN Requery(s, Take(s.q, Len(s.q) - 1)) ELSE s
    [] op.key = "rune" -> Rune(s, op.r)
    [] OTHER -> s
Relimit(s, min, max) == LET t == [s EXCEPT !.min = min, !.max = max, !.sel = {}] IN AddAll(t, Sorted(s.sel))

Apply(s0, op) ==
  LET s == [s0 EXCEPT !.msg = [k |-> "none", ok |-> FALSE, v |-> <<>>]] IN
  CASE op.k = "key" -> KeyAct(s, op)
    [] op.k = "height" -> [s EXCEPT !.h = MaxOf(1, op.n)]
    [] op.k = "filterable" -> [s EXCEPT !.filterable = op.on]
    [] op.k = "filterfunc" -> [s EXCEPT !.filter = op.f]
    [] op.k = "renderfunc" -> [s EXCEPT !.render = "own"]
    \* new options start afresh: nothing selected, unfiltered, everything but limits and filterability as built
    [] op.k = "options" -> [s EXCEPT !.opts = op.opts, !.cur = 0, !.sel = {}, !.q = <<>>, !.h = 10, !.filter = "sub", !.render = "std"]
    [] op.k = "selected" -> AddAll(s, SelectSeq([k \in 1..Len(op.i) |-> op.i[k] + 1], LAMBDA k : k \in 1..Len(s.opts)))
    [] op.k = "min" -> Relimit(s, MaxOf(0, op.n), s.max)
    [] op.k = "max" -> Relimit(s, s.min, MaxOf(0, op.n))
    [] OTHER -> s

Mark(s, k) == IF s.multi THEN <<1091, IF k \in s.sel THEN 1120 ELSE SP, 1093, SP>> ELSE <<>>
Disabled == <<SP, 1040, 1100, 1105, 1115, 1097, 1098, 1108, 1101, 1100, 1041>>
Desc(o) == IF o.desc = <<>> THEN <<>> ELSE <<SP, 1045, SP>> \o o.desc
RowOf(s, p) ==
  LET k == Shown(s)[p]
      o == s.opts[k]
      foc == p = s.cur + 1
      dis == IF o.dis THEN Disabled ELSE <<>>
  IN IF s.render = "own" THEN Num(p - 1) \o <<IF foc THEN 1062 ELSE 1046, IF k \in s.sel /\ s.multi THEN 1042 ELSE 1046>> \o o.label
     ELSE <<IF foc THEN 1062 ELSE SP, SP>> \o Mark(s, k) \o o.label \o (IF s.multi THEN Desc(o) \o dis ELSE dis \o Desc(o))
First(s) == MaxOf(0, s.cur - s.h + 1)
Rows(s) == [k \in 1..MinOf(s.h, Len(Shown(s)) - First(s)) |-> RowOf(s, First(s) + k)]
NoOptions == <<1040, 1110, 1111, SP, 1111, 1112, 1116, 1105, 1111, 1110, 1115, 1041>>
FilterIs == <<1070, 1105, 1108, 1116, 1101, 1114, 1058, SP>>
TypeTo == <<1084, 1121, 1112, 1101, SP, 1116, 1111, SP, 1102, 1105, 1108, 1116, 1101, 1114, 1046, 1046, 1046>>
Of == <<SP, 1111, 1102, SP>>
Count(s) == IF s.multi /\ s.opts # <<>>
            THEN <<SP, 1040>> \o Num(Cardinality(s.sel)) \o Of \o Num(Len(s.opts)) \o <<SP, 1115, 1101, 1108, 1101, 1099, 1116, 1101, 1100, 1041>> ELSE <<>>
\* "  a: all  n: none  Space: toggle  Enter: confirm"
Help == <<SP, SP, 1097, 1058, SP, 1097, 1108, 1108, SP, SP, 1110, 1058, SP, 1110, 1111, 1110, 1101, SP, SP, 1083, 1112, 1097, 1099, 1101, 1058, SP,
          1116, 1111, 1103, 1103, 1108, 1101, SP, SP, 1069, 1110, 1116, 1101, 1114, 1058, SP, 1099, 1111, 1110, 1102, 1105, 1114, 1109>>
View(s) ==
  (IF s.title = <<>> THEN <<>> ELSE <<s.title \o Count(s), <<>>>>)
  \o (IF Shown(s) = <<>> THEN <<IF s.q # <<>> THEN NoMatches ELSE NoOptions>> ELSE Rows(s))
  \o (IF s.filterable THEN <<<<>>, IF s.q # <<>> THEN FilterIs \o s.q ELSE TypeTo>> ELSE <<>>)
  \o (IF s.multi THEN <<<<>>, Help>> ELSE <<>>)

Obs(s) == [view |-> View(s), msg |-> s.msg, sel |-> Sorted(s.sel), n |-> Cardinality(s.sel), foc |-> IF s.multi THEN <<>> ELSE Sorted(Under(s)), frozen |-> TRUE]

Inv(s) == /\ s.cur >= 0 /\ (Shown(s) = <<>> => s.cur = 0) /\ (Shown(s) # <<>> => s.cur < Len(Shown(s)))
          /\ s.sel \subseteq 1..Len(s.opts)
          /\ (s.max > 0 => Cardinality(s.sel) <= s.max)
          /\ (~s.multi => Cardinality(s.sel) <= 1)
          /\ Len(Rows(s)) <= s.h
          /\ (Shown(s) # <<>> => s.cur + 1 \in (First(s) + 1)..(First(s) + Len(Rows(s))))
StepOk(s, op, s2) ==
  /\ (s2.msg.k = "confirm" /\ s.multi) => Cardinality(s2.sel) >= Need(s2) /\ s2.msg.v = Sorted(s2.sel)
  /\ (s2.msg.k = "confirm" /\ ~s.multi) => SeqSet(s2.msg.v) = Usable(s2)
  /\ (op.k = "key" /\ op.key \in {"up", "down", "home", "end", "esc", "backspace", "enter"} /\ s.multi) => s2.sel = s.sel
  /\ (op.k = "key" /\ s.sel # s2.sel /\ ~s.multi) => op.key = "enter"

Abc(n) == <<[label |-> <<1066, 1203>>, desc |-> <<>>, dis |-> FALSE], [label |-> <<1098, 1097, 1209>>, desc |-> <<1100>>, dis |-> FALSE],
            [label |-> <<1099>>, desc |-> <<>>, dis |-> TRUE], [label |-> <<1203, 1098>>, desc |-> <<>>, dis |-> FALSE]>>
Cfgs == {[multi |-> FALSE, title |-> <<1081>>, opts |-> Abc(4)]}
MultiCfgs == {[multi |-> TRUE, title |-> <<1081>>, opts |-> Abc(4)]}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"up", "down", "end", "enter", "esc", "backspace", "space"}}
  \cup {[k |-> "key", key |-> "rune", r |-> x] : x \in {1203, 1098} \cup (IF s.multi THEN {1097, 1110} ELSE {})}
  \cup {[k |-> "filterable", on |-> TRUE], [k |-> "height", n |-> 2]}
  \cup (IF s.multi THEN {[k |-> "max", n |-> 2], [k |-> "max", n |-> 0], [k |-> "min", n |-> 2], [k |-> "selected", i |-> <<3, 7, 0>>]} ELSE {})
=============================================================================

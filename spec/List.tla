------------------------------- MODULE List -------------------------------
(* A scrolling list with a focused item, single or multiple selection, and type-to-filter.
   An item's value is its position. *)
EXTENDS Base, Words

Match(f, label, q) == CASE q = <<>> -> TRUE
                       [] f = "pre" -> Len(q) <= Len(label) /\ Take(label, Len(q)) = q
                       [] f = "suf" -> Len(q) <= Len(label) /\ Drop(label, Len(label) - Len(q)) = q
                       [] OTHER -> Within(LowT(q), LowT(label))
Shown(s) == SelectSeq([k \in 1..Len(s.items) |-> k], LAMBDA k : Match(s.filter, s.items[k], s.q))
N(s) == Len(Shown(s))

Init0(cfg) == [multi |-> cfg.multi, items |-> cfg.items, foc |-> 0, sel |-> {}, q |-> <<>>, h |-> 10,
               typing |-> FALSE, filter |-> "sub", render |-> "std", quit |-> FALSE]

Go(s, k) == IF N(s) = 0 THEN s ELSE [s EXCEPT !.foc = k]
\* a changed filter starts a new selection and keeps the focus on a shown item
Refilter(s) == LET t == [s EXCEPT !.sel = {}] IN [t EXCEPT !.foc = IF @ >= N(t) THEN 0 ELSE @]
Toggle(s) ==
  IF N(s) = 0 THEN s
  ELSE LET k == Shown(s)[s.foc + 1] IN
       IF ~s.multi THEN [s EXCEPT !.sel = {k}]
       ELSE IF k \in s.sel THEN [s EXCEPT !.sel = @ \ {k}] ELSE [s EXCEPT !.sel = @ \cup {k}]

Up(s) == Go(s, (s.foc + N(s) - 1) % MaxOf(1, N(s)))
Down(s) == Go(s, (s.foc + 1) % MaxOf(1, N(s)))
Rune(s, a) ==
  CASE a = 1107 -> Up(s) [] a = 1106 -> Down(s) [] a = 1103 -> Go(s, 0) [] a = 1071 -> Go(s, N(s) - 1)
    [] a = 1113 -> [s EXCEPT !.quit = TRUE]
    [] OTHER -> IF s.typing THEN Refilter([s EXCEPT !.q = Append(@, a)]) ELSE s
KeyAct(s, op) ==
  CASE op.key = "up" -> Up(s) [] op.key = "down" -> Down(s)
    [] op.key \in {"pgup", "ctrl+u"} -> Go(s, MaxOf(0, s.foc - s.h))
    [] op.key \in {"pgdown", "ctrl+d"} -> Go(s, MinOf(N(s) - 1, s.foc + s.h))
    [] op.key = "home" -> Go(s, 0) [] op.key = "end" -> Go(s, N(s) - 1)
    [] op.key = "space" -> Toggle(s)
    [] op.key = "ctrl+a" -> IF s.multi /\ N(s) > 0 THEN [s EXCEPT !.sel = SeqSet(Shown(s))] ELSE s
    [] op.key = "esc" -> [s EXCEPT !.sel = {}]
    [] op.key = "ctrl+c" -> [s EXCEPT !.quit = TRUE]
    [] op.key = "backspace" -> IF s.typing /\ s.q # <<>> THEN Refilter([s EXCEPT !.q = Take(@, Len(@) - 1)]) ELSE s
    [] op.key = "rune" -> Rune(s, op.r)
    [] OTHER -> s
Apply(s0, op) ==
  LET s == [s0 EXCEPT !.quit = FALSE] IN
  CASE op.k = "key" -> KeyAct(s, op)
    [] op.k = "height" -> [s EXCEPT !.h = MaxOf(1, op.n)]
    [] op.k = "typing" -> [s EXCEPT !.typing = op.on]
    [] op.k = "filterfunc" -> Refilter([s EXCEPT !.filter = op.f])
    [] op.k = "renderfunc" -> [s EXCEPT !.render = "own"]
    [] OTHER -> s

\* the window keeps the focus in its middle as far as the ends allow
First(s) == IF N(s) <= s.h THEN 0 ELSE Clamp(s.foc - s.h \div 2, 0, N(s) - s.h)
RowOf(s, p) ==
  LET k == Shown(s)[p]
      foc == p = s.foc + 1
  IN IF s.render = "own" THEN Num(p - 1) \o <<IF foc THEN 1062 ELSE 1046, IF k \in s.sel THEN 1042 ELSE 1046>> \o Num(k)
     ELSE <<IF foc THEN 1062 ELSE IF k \in s.sel THEN 10003 + 9000 ELSE SP, SP>> \o s.items[k]
Rows(s) == [k \in 1..MinOf(s.h, N(s) - First(s)) |-> RowOf(s, First(s) + k)]
EmptyList == <<1040, 1101, 1109, 1112, 1116, 1121, SP, 1108, 1105, 1115, 1116, 1041>>
Active == <<1070, 1105, 1108, 1116, 1101, 1114, 1058, SP, 1040, 1097, 1099, 1116, 1105, 1118, 1101, 1041>>
View(s) == (IF N(s) = 0 THEN <<IF s.q # <<>> THEN NoMatches ELSE EmptyList>> ELSE Rows(s))
           \o (IF s.typing /\ s.q # <<>> THEN <<Active>> ELSE <<>>)

Places(s) == [k \in 1..N(s) |-> k - 1]
Obs(s) == [view |-> View(s), quit |-> s.quit, frozen |-> TRUE,
           sel |-> SelectSeq(Shown(s), LAMBDA k : k \in s.sel),
           idx |-> SelectSeq(Places(s), LAMBDA p : Shown(s)[p + 1] \in s.sel),
           foc |-> IF N(s) = 0 THEN <<>> ELSE <<Shown(s)[s.foc + 1], s.foc>>]

Inv(s) == /\ s.foc >= 0 /\ (N(s) > 0 => s.foc < N(s))
          /\ s.sel \subseteq SeqSet(Shown(s))
          /\ (~s.multi => Cardinality(s.sel) <= 1)
          /\ Len(Rows(s)) = MinOf(s.h, N(s))
          /\ (N(s) > 0 => s.foc \in First(s)..(First(s) + Len(Rows(s)) - 1))
StepOk(s, op, s2) == (s2.sel # s.sel) => (op.k = "filterfunc" \/ s2.q # s.q \/ op.key \in {"space", "ctrl+a", "esc"})

Ab == <<<<1066, 1203>>, <<1098, 1209>>, <<1099>>, <<1203, 1098>>>>
Cfgs == {[multi |-> FALSE, items |-> Ab], [multi |-> TRUE, items |-> Ab]}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"up", "down", "pgdown", "ctrl+u", "space", "esc", "backspace", "ctrl+a"}}
  \cup {[k |-> "key", key |-> "rune", r |-> x] : x \in {1203, 1098}}
  \cup {[k |-> "typing", on |-> TRUE], [k |-> "height", n |-> 2], [k |-> "filterfunc", f |-> "suf"]}
=============================================================================

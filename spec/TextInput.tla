----------------------------- MODULE TextInput -----------------------------
(* A one-line text field: text of whole characters, a cursor between them, an optional selection. *)
EXTENDS Graphemes

Init0(cfg) == [t |-> <<>>, cur |-> 0, sel |-> <<>>, w |-> MaxOf(1, cfg.w), focus |-> FALSE, show |-> TRUE, ph |-> <<>>, v |-> <<>>]

Cl(s) == Seg(s.t)
N(s) == Len(Cl(s))
Before(s) == Flat(Take(Cl(s), s.cur))
After(s) == Flat(Drop(Cl(s), s.cur))
Goto(s, k) == [s EXCEPT !.cur = Clamp(k, 0, N(s)), !.sel = <<>>]
\* how many characters begin before the n-th code point of the text
Upto(cps, n) == Len(SelectSeq([k \in 1..Len(Seg(cps)) |-> Len(Flat(Take(Seg(cps), k - 1)))], LAMBDA p : p < n))
DropSel(s) == LET cs == Cl(s) IN
              [s EXCEPT !.t = Flat(Take(cs, s.sel[1])) \o Flat(Drop(cs, s.sel[2])), !.cur = s.sel[1], !.sel = <<>>]
Insert(s0, x) ==
  LET s == IF s0.sel # <<>> THEN DropSel(s0) ELSE s0
      t == Before(s) \o <<x>> \o After(s)
  IN [s EXCEPT !.t = t, !.cur = Upto(t, Len(Before(s)) + 1)]
Back(s) == IF s.sel # <<>> THEN DropSel(s)
           ELSE IF s.cur = 0 THEN s
           ELSE [s EXCEPT !.t = Flat(Take(Cl(s), s.cur - 1)) \o After(s), !.cur = @ - 1]
Del(s) == IF s.sel # <<>> THEN DropSel(s)
          ELSE IF s.cur >= N(s) THEN s
          ELSE [s EXCEPT !.t = Before(s) \o Flat(Drop(Cl(s), s.cur + 1))]

KeyAct(s, op) ==
  CASE op.key = "left" -> Goto(s, s.cur - 1)
    [] op.key = "right" -> Goto(s, s.cur + 1)
    [] op.key = "home" -> Goto(s, 0)
    [] op.key \in {"end", "ctrl+e"} -> Goto(s, N(s))
    [] op.key = "backspace" -> Back(s)
    [] op.key = "delete" -> Del(s)
    [] op.key = "space" -> Insert(s, 32)
    [] op.key = "rune" -> Insert(s, op.cp)
    [] op.key = "ctrl+a" -> [s EXCEPT !.cur = N(s), !.sel = IF N(s) = 0 THEN <<>> ELSE <<0, N(s)>>]
    [] op.key = "ctrl+u" -> [s EXCEPT !.t = <<>>, !.cur = 0, !.sel = <<>>]
    [] OTHER -> s

Apply(s, op) ==
  CASE op.k = "key" -> IF s.focus THEN KeyAct(s, op) ELSE s
    [] op.k = "content" -> LET n == Len(Seg(op.t))
                               a == IF s.sel = <<>> THEN 0 ELSE MinOf(s.sel[1], n)
                               b == IF s.sel = <<>> THEN 0 ELSE MinOf(s.sel[2], n)
                           IN [s EXCEPT !.t = op.t, !.cur = MinOf(@, n), !.sel = IF a = b THEN <<>> ELSE <<a, b>>]
    [] op.k = "set" -> Goto([s EXCEPT !.t = op.t], op.at)
    [] op.k = "focus" -> [s EXCEPT !.focus = op.on]
    [] op.k = "show" -> [s EXCEPT !.show = op.on]
    [] op.k = "width" -> [s EXCEPT !.w = MaxOf(1, op.n)]
    [] op.k = "placeholder" -> [s EXCEPT !.ph = op.t]
    [] op.k = "validator" -> [s EXCEPT !.v = op.v]
    [] OTHER -> s

\* validators, on texts of one byte per character: kinds of limit, all of which must hold
Valid(s) == \A k \in 1..Len(s.v) :
  CASE s.v[k].t = "notempty" -> s.t # <<>>
    [] s.v[k].t = "min" -> Len(s.t) >= s.v[k].a
    [] s.v[k].t = "max" -> Len(s.t) <= s.v[k].a
    [] s.v[k].t = "range" -> Len(s.t) \in s.v[k].a..s.v[k].b

\* the line shown: whole characters within the width, the cursor's among them; -1 .. -2 is the cursor
Field(s) ==
  LET b == Take(Cl(s), s.cur)
      a == IF s.cur < N(s) THEN <<Cl(s)[s.cur + 1]>> ELSE <<>>
      r == Drop(Cl(s), s.cur + 1)
      lit == s.focus /\ s.show
      cw == IF a # <<>> THEN ClW(a[1]) ELSE IF lit THEN 1 ELSE 0
      fits == CellsOf(b) + cw + CellsOf(r) <= s.w
      a2 == IF ~fits /\ cw > s.w THEN <<>> ELSE a
      room == s.w - MinOf(cw, s.w)
      b2 == IF fits THEN b ELSE LastCells(b, room)
      r2 == IF fits THEN r ELSE FirstCells(r, room - CellsOf(b2))
      at == IF ~lit THEN Flat(a2) ELSE <<-1>> \o (IF a2 = <<>> THEN <<32>> ELSE Flat(a2)) \o <<-2>>
  IN [b |-> b2, a |-> at, r |-> r2, w |-> CellsOf(b2) + cw + CellsOf(r2)]
View(s) == IF s.t = <<>> /\ ~s.focus THEN s.ph ELSE Flat(Field(s).b) \o Field(s).a \o Flat(Field(s).r)

Obs(s) == [value |-> s.t, cur |-> s.cur, before |-> Before(s), at |-> IF s.cur < N(s) THEN Cl(s)[s.cur + 1] ELSE <<>>,
           after |-> Flat(Drop(Cl(s), s.cur + 1)), view |-> View(s), valid |-> Valid(s), focus |-> s.focus, frozen |-> TRUE]

Inv(s) == /\ s.cur \in 0..N(s)
          /\ Field(s).w <= s.w \/ s.w = 1
          /\ Before(s) \o After(s) = s.t
          /\ (s.sel # <<>> => s.sel[1] < s.sel[2] /\ s.sel[2] <= N(s))
StepOk(s, op, s2) == (op.k = "key" /\ ~s.focus) => s2 = s

Cfgs == {[w |-> 3]}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"left", "right", "home", "backspace", "delete", "ctrl+a"}}
  \cup {[k |-> "key", key |-> "rune", cp |-> x] : x \in {97, 19990, 769, 127465}}
  \cup {[k |-> "focus", on |-> TRUE], [k |-> "set", t |-> <<98, 769, 19990, 99>>, at |-> 2]}
=============================================================================

------------------------------- MODULE Modal -------------------------------
(* A modal dialog: hidden or shown, buttons with one focused, keys, and the box it draws.
   A "view" event carries the bytes of View(), interpreted by the terminal of Term.tla. *)
EXTENDS Term

Lower(a) == IF a \in 1065..1090 THEN a + 32 ELSE IF a = 1209 THEN 1203 ELSE a
Init0(cfg) ==
  [title |-> cfg.title, content |-> cfg.content, w |-> 40, h |-> 10, center |-> TRUE, x |-> 0, y |-> 0, btn |-> <<>>, foc |-> 0,
   vis |-> FALSE, dim |-> FALSE, tw |-> 80, th |-> 24, msg |-> "", drawn |-> TRUE]
N(s) == Len(s.btn)

KeyAct(s, op) ==
  LET move(d) == IF N(s) = 0 THEN s ELSE [s EXCEPT !.foc = (@ + d + N(s)) % N(s)]
      hits == IF op.key = "rune" THEN {k \in 1..N(s) : Lower(s.btn[k].key) = Lower(op.r)} ELSE {}
  IN IF ~s.vis THEN s
     ELSE CASE op.key = "esc" -> [s EXCEPT !.vis = FALSE]
            [] op.key \in {"tab", "right"} -> move(1)
            [] op.key \in {"shift+tab", "left"} -> move(-1)
            [] op.key = "enter" -> IF N(s) = 0 THEN s ELSE [s EXCEPT !.msg = s.btn[s.foc + 1].act]
            [] op.key = "rune" -> IF hits = {} THEN s ELSE [s EXCEPT !.msg = s.btn[Min(hits)].act]
            [] OTHER -> s

(* ------------------------------------------------------------------ the box *)
Fit(t, w) == IF TW(t) <= w THEN PadTo(t, w) ELSE IF w > 3 THEN PadTo(CutTo(t, w - 3) \o <<1046, 1046, 1046>>, w) ELSE PadTo(CutTo(t, w), w)
H == 9000 + 9472 \* U+2500
V == 9000 + 9474
Edge(l, r, w) == <<l>> \o Rep(H, w - 2) \o <<r>>
Side(t, w) == <<V, SP>> \o Fit(t, w - 4) \o <<SP, V>>
Buttons(s) == Cat([k \in 1..N(s) |-> (IF k > 1 THEN <<SP, SP>> ELSE <<>>)
                      \o (IF k - 1 = s.foc THEN <<1060, SP>> \o s.btn[k].label \o <<SP, 1062>> ELSE <<1091, SP>> \o s.btn[k].label \o <<SP, 1093>>)])
Box(s) ==
  LET top == IF s.title = <<>> THEN <<>> ELSE <<Side(s.title, s.w), Edge(9000 + 9500, 9000 + 9508, s.w)>>
      bot == IF N(s) = 0 THEN <<>> ELSE <<Edge(9000 + 9500, 9000 + 9508, s.w), Side(Buttons(s), s.w)>>
      n == s.h - 2 - Len(top) - Len(bot)
  IN <<Edge(9000 + 9484, 9000 + 9488, s.w)>> \o top \o [k \in 1..n |-> Side(IF k <= Len(s.content) THEN s.content[k] ELSE <<>>, s.w)]
     \o bot \o <<Edge(9000 + 9492, 9000 + 9496, s.w)>>
X0(s) == IF s.center THEN MaxOf((s.tw - s.w) \div 2, 0) ELSE s.x
Y0(s) == IF s.center THEN MaxOf((s.th - s.h) \div 2, 0) ELSE s.y
Fits(s) == /\ s.w >= 4 /\ s.h >= 2 + (IF s.title = <<>> THEN 0 ELSE 2) + (IF N(s) = 0 THEN 0 ELSE 2)
           /\ X0(s) >= 0 /\ Y0(s) >= 0 /\ X0(s) + s.w <= s.tw /\ Y0(s) + s.h <= s.th
\* a blank background cell is a space, a dimmed one a light shade (U+2591)
CellRow(txt) == Cat([k \in 1..Len(txt) |-> IF W(txt[k]) = 2 THEN <<txt[k], 0>> ELSE <<txt[k]>>])
Screen(s) ==
  LET box == Box(s) bg == IF s.dim THEN 9000 + 9617 ELSE SP
      rows == [r \in 1..Len(box) |-> CellRow(box[r])]
  IN [r \in 1..s.th |-> [c \in 1..s.tw |->
        IF r - Y0(s) \in 1..s.h /\ c - X0(s) \in 1..s.w THEN rows[r - Y0(s)][c - X0(s)] ELSE bg]]
Shown(s, out) == \* two spare rows: every line of the view ends with a line feed
  LET t == Feed(TermNew(s.tw, s.th + 2), out)
  IN [r \in 1..s.th |-> [c \in 1..s.tw |-> t.rows[r][c][1]]]
\* rows of the view are separated by bare line feeds; the program's output turns them into CR LF
Cooked(out) == Cat([k \in 1..Len(out) |-> IF out[k].t = "c" /\ out[k].n = 10 THEN <<[t |-> "c", n |-> 13], out[k]>> ELSE <<out[k]>>])

Apply(s0, op) ==
  LET s == [s0 EXCEPT !.msg = "", !.drawn = TRUE] IN
  CASE op.k = "key" -> KeyAct(s, op)
    [] op.k = "show" -> [s EXCEPT !.vis = TRUE]
    [] op.k = "hide" -> [s EXCEPT !.vis = FALSE]
    [] op.k = "size" -> [s EXCEPT !.w = op.w, !.h = op.h]
    [] op.k = "pos" -> [s EXCEPT !.center = FALSE, !.x = op.x, !.y = op.y]
    [] op.k = "center" -> [s EXCEPT !.center = TRUE]
    [] op.k = "dim" -> [s EXCEPT !.dim = op.on]
    [] op.k = "buttons" -> [s EXCEPT !.btn = op.b, !.foc = 0]
    [] op.k = "winsize" -> [s EXCEPT !.tw = op.w, !.th = op.h]
    [] op.k = "view" -> IF ~Has(op, "out") THEN s
                        ELSE [s EXCEPT !.drawn = IF ~s.vis THEN op.out = <<>> ELSE Fits(s) => Shown(s, Cooked(op.out)) = Screen(s)]
    [] OTHER -> s

Obs(s) == [vis |-> s.vis, msg |-> s.msg, focused |-> IF N(s) = 0 THEN "" ELSE s.btn[s.foc + 1].act, drawn |-> s.drawn, frozen |-> TRUE]
Inv(s) == IF N(s) = 0 THEN s.foc = 0 ELSE s.foc \in 0..(N(s) - 1)
StepOk(s, op, s2) ==
  /\ ~s.vis => s2.msg = ""
  /\ (s.vis /\ ~s2.vis) => op.k = "hide" \/ op.key = "esc"
  /\ (~s.vis /\ s2.vis) => op.k = "show"

B1 == <<[label |-> <<1089>>, key |-> 1121, act |-> "a"], [label |-> <<1078, 2001>>, key |-> 1078, act |-> "b"], [label |-> <<1067>>, key |-> 1121, act |-> "c"]>>
Cfgs == {[title |-> t, content |-> <<<<1097, 2001, 1098>>, <<1099>>>>] : t \in {<<>>, <<1084>>}}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"tab", "shift+tab", "left", "right", "enter", "esc", "up"}}
  \cup {[k |-> "key", key |-> "rune", r |-> x] : x \in {1121, 1110}}
  \cup {[k |-> "show"], [k |-> "hide"], [k |-> "buttons", b |-> B1], [k |-> "buttons", b |-> Take(B1, 1)], [k |-> "winsize", w |-> 41, h |-> 12], [k |-> "view"]}
=============================================================================

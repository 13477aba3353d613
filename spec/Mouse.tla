---- MODULE Mouse ----
(* The mouse: reports of a terminal (SGR, X10, URxvt) are decoded and enriched with clicks and drags; hovering over
   areas; placing menus; switching the reporting on and off.  Reports are sequences of bytes.

   ops: [k |-> "seq", bytes, dt]      a report, dt milliseconds after the previous operation
        [k |-> "reset"]  [k |-> "hover", x, y, areas : [id, x, y, w, h]]  [k |-> "menu", x, y, mw, mh, sw, sh]
        [k |-> "power", on]  [k |-> "out", ok]      switch reporting on or off; standard output breaks or works
   cfg: m (which exploration), log (keep the history for the declarative invariants)                        *)
EXTENDS Integers, Sequences, FiniteSets, Base

Limit == 500     \* milliseconds between clicks
Near == 1        \* cells between clicks
Far == 2         \* cells which make a drag
Lines == 3       \* lines a wheel step scrolls

-------------------------------------------------------------------- \* decoding
ESC == 27
LB == 91
SEMI == 59
Bit(c, k) == (c \div k) % 2 = 1
Mods(c) == (c \div 4) % 8          \* shift 1, alt 2, ctrl 4
Base0(c) == c - 4 * Mods(c)        \* the code without modifiers
Button(c) == LET b == Base0(c) IN
  CASE b = 0 -> "left" [] b = 1 -> "middle" [] b = 2 -> "right" [] b = 64 -> "up" [] b = 65 -> "down" [] OTHER -> "none"
Bad == [ok |-> FALSE, t |-> "", b |-> "", x |-> 0, y |-> 0, m |-> 0]
Raw(t, c, x, y) == [ok |-> TRUE, t |-> t, b |-> Button(c), x |-> x, y |-> y, m |-> Mods(c)]
Kind(c, press, release) ==
  IF Bit(c, 32) THEN "motion" ELSE IF Bit(c, 64) /\ ~Bit(c, 128) THEN "scroll" ELSE IF release THEN "release" ELSE press

RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
\* -1 when it is no number
Num(d) == IF d = << >> \/ \E k \in 1..Len(d) : d[k] \notin 48..57 THEN -1
  ELSE LET z == NoZeros(d) IN IF Len(z) > 9 THEN -1 ELSE FoldLeft(LAMBDA a, c : a * 10 + c - 48, 0, z)
RECURSIVE Split(_, _)
Split(q, cur) == IF q = << >> THEN <<cur>> ELSE IF q[1] = SEMI THEN <<cur>> \o Split(Tail(q), << >>) ELSE Split(Tail(q), Append(cur, q[1]))
Params(q) == LET p == Split(q, << >>) IN
  IF Len(p) # 3 THEN <<-1, 0, 0>>
  ELSE LET v == <<Num(p[1]), Num(p[2]), Num(p[3])>> IN IF v[1] < 0 \/ v[2] < 1 \/ v[3] < 1 THEN <<-1, 0, 0>> ELSE v
Strip1(q, c) == IF q # << >> /\ q[1] = c THEN Tail(q) ELSE q
Decode(bytes) == LET q == Strip1(Strip1(bytes, ESC), LB)   n == Len(q) IN
  IF n = 0 THEN Bad
  ELSE IF q[1] = 60
  THEN IF q[n] \notin {77, 109} THEN Bad
       ELSE LET v == Params(SubSeq(q, 2, n - 1)) IN
            IF v[1] < 0 THEN Bad ELSE Raw(Kind(v[1], "press", q[n] = 109), v[1], v[2] - 1, v[3] - 1)
  ELSE IF q[1] = 77
  THEN IF n # 4 \/ q[2] < 32 \/ q[3] < 33 \/ q[4] < 33 THEN Bad
       ELSE LET c == q[2] - 32 IN Raw(Kind(c, "press", Base0(c) = 3), c, q[3] - 33, q[4] - 33)
  ELSE IF q[n] = 77
  THEN LET v == Params(SubSeq(q, 1, n - 1))   c == IF v[1] >= 32 THEN v[1] - 32 ELSE v[1] IN
       IF v[1] < 0 THEN Bad ELSE Raw(Kind(c, "press", Base0(c) = 3), c, v[2] - 1, v[3] - 1)
  ELSE Bad

\* what a terminal sends.  ev: [t, b, x, y, m], with the button held for a motion ("none": without)
BNum(b) == CASE b = "left" -> 0 [] b = "middle" -> 1 [] b = "right" -> 2 [] b = "up" -> 64 [] b = "down" -> 65 [] OTHER -> 3
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Encode(p, ev) ==
  LET c == (IF p # "sgr" /\ ev.t = "release" THEN 3 ELSE BNum(ev.b)) + 4 * ev.m + (IF ev.t = "motion" THEN 32 ELSE 0)
      xy == Digits(ev.x + 1) \o <<SEMI>> \o Digits(ev.y + 1)
  IN CASE p = "sgr" -> <<ESC, LB, 60>> \o Digits(c) \o <<SEMI>> \o xy \o <<IF ev.t = "release" THEN 109 ELSE 77>>
       [] p = "urxvt" -> <<ESC, LB>> \o Digits(c + 32) \o <<SEMI>> \o xy \o <<77>>
       [] OTHER -> <<ESC, LB, 77, c + 32, ev.x + 33, ev.y + 33>>
\* what can be recovered: motion reports no button, and only SGR tells which button was released
Seen(p, ev) == [ok |-> TRUE, t |-> ev.t, x |-> ev.x, y |-> ev.y, m |-> ev.m,
                b |-> IF ev.t = "motion" \/ (p # "sgr" /\ ev.t = "release") THEN "none" ELSE ev.b]

-------------------------------------------------------------------- \* clicks and drags
Abs(n) == IF n < 0 THEN -n ELSE n
Dist(x1, y1, x2, y2) == Abs(x1 - x2) + Abs(y1 - y2)
Ev(t, b, x, y, m) == [t |-> t, b |-> b, x |-> x, y |-> y, m |-> m,
                      d |-> IF t # "scroll" THEN 0 ELSE IF b = "up" THEN -Lines ELSE IF b = "down" THEN Lines ELSE 0]
Clicks == <<"click", "double", "triple">>
NoHold == [on |-> FALSE, x |-> 0, y |-> 0, b |-> "", m |-> 0, drag |-> FALSE]
NoClick == [n |-> 0, b |-> "", x |-> 0, y |-> 0, age |-> 0]

Move(h, x, y) == IF h.on /\ Dist(h.x, h.y, x, y) >= Far THEN [h EXCEPT !.drag = TRUE] ELSE h
Release(s, e) ==
  LET b == IF e.b = "none" /\ s.hold.on THEN s.hold.b ELSE e.b
      h == Move(s.hold, e.x, e.y)
      ev == Ev("release", b, e.x, e.y, e.m)
      c == s.click
      n == IF c.n > 0 /\ c.age <= Limit /\ Dist(c.x, c.y, e.x, e.y) <= Near /\ c.b = b THEN (c.n % 3) + 1 ELSE 1
  IN IF h.drag THEN [s EXCEPT !.hold = NoHold, !.out = <<ev>>]
     ELSE [s EXCEPT !.hold = NoHold, !.click = [n |-> n, b |-> b, x |-> e.x, y |-> e.y, age |-> 0],
                    !.out = <<Ev(Clicks[n], b, e.x, e.y, e.m), ev>>]
Process(s, e) ==
  CASE e.t = "press" -> [s EXCEPT !.hold = [on |-> TRUE, x |-> e.x, y |-> e.y, b |-> e.b, m |-> e.m, drag |-> FALSE],
                                  !.out = <<Ev("press", e.b, e.x, e.y, e.m)>>]
    [] e.t = "release" -> Release(s, e)
    [] e.t = "motion" -> LET h == Move(s.hold, e.x, e.y) IN
         [s EXCEPT !.hold = h, !.out = <<IF h.drag THEN Ev("drag", h.b, e.x, e.y, h.m) ELSE Ev("motion", e.b, e.x, e.y, e.m)>>]
    [] OTHER -> [s EXCEPT !.out = <<Ev("scroll", e.b, e.x, e.y, e.m)>>]

-------------------------------------------------------------------- \* hovering, menus, reporting
Inside(a, x, y) == a.x <= x /\ x < a.x + MaxOf(a.w, 0) /\ a.y <= y /\ y < a.y + MaxOf(a.h, 0)
Over(areas, x, y) == LET A == {k \in 1..Len(areas) : Inside(areas[k], x, y)} IN IF A = {} THEN "" ELSE areas[Min(A)].id
Hover(s, op) == LET id == Over(op.areas, op.x, op.y) IN
  [s EXCEPT !.over = id,
            !.hov = IF id = "" THEN (IF s.over # "" THEN "leave" ELSE "motion") ELSE IF id = s.over THEN "move" ELSE "enter"]
Place(c, m, sc) == IF c + m > sc THEN sc - m ELSE c
Menu(op) == LET mw == MaxOf(op.mw, 0)   mh == MaxOf(op.mh, 0)   sw == MaxOf(op.sw, 0)   sh == MaxOf(op.sh, 0) IN
  IF mw > sw \/ mh > sh THEN <<0, 0>> ELSE <<Place(op.x, mw, sw), Place(op.y, mh, sh)>>

Modes == {1002, 1006}    \* button motion, SGR reports
\* modes: the reporting modes which the terminal is in
Power(s, on) ==
  IF ~s.pipe THEN [s EXCEPT !.err = (on \/ s.on)]       \* nothing reaches the terminal
  ELSE [s EXCEPT !.on = on, !.modes = IF on THEN Modes ELSE IF s.on THEN {} ELSE @]

Init0(cfg) == [cfg |-> cfg, hold |-> NoHold, click |-> NoClick, out |-> << >>, err |-> FALSE, over |-> "", hov |-> "",
               menu |-> <<0, 0>>, on |-> FALSE, modes |-> {}, pipe |-> TRUE, raw |-> Bad, rel |-> << >>, path |-> << >>]
Tick(s, dt) == [s EXCEPT !.click.age = MinOf(@ + dt, Limit + 1)]
\* the histories behind the declarative invariants
Note(s, e, s2, dt) == IF ~s.cfg.log THEN s2 ELSE
  LET aged == [k \in 1..Len(s.rel) |-> [s.rel[k] EXCEPT !.t = @ + dt]]
      isClick == Len(s2.out) = 2
  IN [s2 EXCEPT !.rel = IF isClick THEN Append(aged, [b |-> s2.out[1].b, x |-> e.x, y |-> e.y, t |-> 0]) ELSE aged,
                !.path = IF e.t = "press" THEN <<<<e.x, e.y>>>> ELSE IF e.t = "release" THEN << >>
                         ELSE IF e.t = "motion" /\ s.path # << >> THEN Append(s.path, <<e.x, e.y>>) ELSE s.path]
Apply(s0, op) == LET s == [s0 EXCEPT !.out = << >>, !.err = FALSE, !.hov = "", !.menu = <<0, 0>>, !.raw = Bad] IN
  CASE op.k = "seq" -> LET e == Decode(op.bytes) IN
         IF ~e.ok THEN [Tick(s, op.dt) EXCEPT !.err = TRUE, !.raw = e, !.rel = [k \in 1..Len(@) |-> [@[k] EXCEPT !.t = @ + op.dt]]]
         ELSE Note(s, e, [Process(Tick(s, op.dt), e) EXCEPT !.raw = e], op.dt)
    [] op.k = "reset" -> [s EXCEPT !.hold = NoHold, !.click = NoClick, !.over = "", !.rel = << >>, !.path = << >>]
    [] op.k = "hover" -> Hover(s, op)
    [] op.k = "menu" -> [s EXCEPT !.menu = Menu(op)]
    [] op.k = "power" -> Power(s, op.on)
    [] op.k = "out" -> [s EXCEPT !.pipe = op.ok]
Obs(s) == [out |-> s.out, err |-> s.err, drag |-> s.hold.drag, over |-> s.over, hov |-> s.hov, menu |-> s.menu,
           on |-> s.on, sgr |-> 1006 \in s.modes, motion |-> 1002 \in s.modes, other |-> s.modes \ Modes # {}]

-------------------------------------------------------------------- \* what is checked on the model
\* the length of the chain of clicks which belong together, ending with the last one
RECURSIVE Chain(_, _)
Chain(r, k) == IF k = 1 THEN 1
  ELSE LET a == r[k - 1]   b == r[k] IN
       IF a.b = b.b /\ a.t - b.t <= Limit /\ Dist(a.x, a.y, b.x, b.y) <= Near THEN 1 + Chain(r, k - 1) ELSE 1
Inv(s) ==
  /\ s.hold.drag => s.hold.on
  /\ s.cfg.log => /\ (Len(s.out) = 2 => s.out[1].t = Clicks[((Chain(s.rel, Len(s.rel)) - 1) % 3) + 1])
                  /\ (s.path # << >>) = s.hold.on
                  /\ s.hold.drag = (s.path # << >> /\ \E k \in 1..Len(s.path) : Dist(s.path[1][1], s.path[1][2], s.path[k][1], s.path[k][2]) >= Far)
  /\ s.on = (s.modes = Modes) /\ (~s.on => s.modes = {})
MenuOk(op, p) == (op.mw <= op.sw /\ op.mh <= op.sh) =>
  /\ 0 <= p[1] /\ p[1] + op.mw <= op.sw /\ 0 <= p[2] /\ p[2] + op.mh <= op.sh
  \* moved only as far as needed: no place nearer to the pointer is on the screen
  /\ \A x \in 0..op.sw - op.mw : Abs(p[1] - op.x) <= Abs(x - op.x)
  /\ \A y \in 0..op.sh - op.mh : Abs(p[2] - op.y) <= Abs(y - op.y)
StepOk(s, op, s2) ==
  CASE op.k = "seq" -> /\ ("ev" \in DOMAIN op => s2.raw = Seen(op.p, op.ev))
                       /\ (s2.err => s2.hold = s.hold /\ s2.out = << >>)
                       /\ ((\E k \in 1..Len(s2.out) : s2.out[k].t = "drag") => s.hold.on)
                       /\ (s2.raw.t = "press" => ~s2.hold.drag)
                       /\ (s2.raw.t = "release" => ~s2.hold.on /\ Len(s2.out) = IF s.hold.drag THEN 1 ELSE Len(s2.out))
    [] op.k = "reset" -> ~s2.hold.on /\ s2.click.n = 0
    [] op.k = "menu" -> (op.x \in 0..op.sw /\ op.y \in 0..op.sh) => MenuOk(op, s2.menu)
    [] op.k = "hover" -> /\ (s2.hov = "enter") = (s2.over # "" /\ s2.over # s.over)
                         /\ (s2.hov = "leave") = (s2.over = "" /\ s.over # "")
    [] OTHER -> TRUE

\* small configurations
Mk(m, log) == [m |-> m, log |-> log]
ClickCfgs == {Mk("click", TRUE)}
DragCfgs == {Mk("drag", TRUE)}
CodeCfgs == {Mk("code", FALSE)}
AreaCfgs == {Mk("area", FALSE)}
PowerCfgs == {Mk("power", FALSE)}
Evt(t, b, x, y, m) == [t |-> t, b |-> b, x |-> x, y |-> y, m |-> m]
SeqOp(p, ev, dt) == [k |-> "seq", p |-> p, ev |-> ev, bytes |-> Encode(p, ev), dt |-> dt]
ClickOps(s) ==
  {SeqOp("sgr", Evt("press", b, x, 0, 0), 0) : b \in {"left", "right"}, x \in {0, 3}}
  \cup {SeqOp(p, Evt("release", b, x, 0, 0), dt) : p \in {"sgr", "x10"}, b \in {"left", "right"}, x \in {0, 1, 2}, dt \in {0, 250, 251, 500, 501}}
  \cup {SeqOp("sgr", Evt("motion", "left", 3, 0, 0), 0), [k |-> "reset"]}
DragOps(s) ==
  {SeqOp("sgr", Evt("press", b, x, y, 0), 0) : b \in {"left", "right"}, x \in {0, 1}, y \in {0}}
  \cup {SeqOp(p, Evt("motion", b, x, y, 1), 0) : p \in {"sgr"}, b \in {"left", "none"}, x \in {0, 1, 2}, y \in {0, 1}}
  \cup {SeqOp("urxvt", Evt("release", b, x, 0, 0), 0) : b \in {"left"}, x \in {0, 1, 2}}
  \cup {SeqOp("sgr", Evt("scroll", "up", 0, 0, 0), 0), [k |-> "reset"]}
Types == {<<"press", b>> : b \in {"left", "middle", "right"}} \cup {<<"release", b>> : b \in {"left", "middle", "right"}}
         \cup {<<"motion", b>> : b \in {"left", "middle", "right", "none"}} \cup {<<"scroll", b>> : b \in {"up", "down"}}
CodeOps(s) ==
  {SeqOp(p, Evt(tb[1], tb[2], x, y, m), 0) : p \in {"sgr", "urxvt"}, tb \in Types, x \in {0, 9, 222, 300}, y \in {0, 58, 10000}, m \in 0..7}
  \cup {SeqOp("x10", Evt(tb[1], tb[2], x, y, m), 0) : tb \in Types, x \in {0, 26, 58, 94, 222}, y \in {0, 76, 222}, m \in 0..7}
AreaSets == {<< >>, <<[id |-> "a", x |-> 0, y |-> 0, w |-> 2, h |-> 1]>>,
             <<[id |-> "a", x |-> 0, y |-> 0, w |-> 2, h |-> 1], [id |-> "b", x |-> 1, y |-> 0, w |-> 2, h |-> 2]>>}
AreaOps(s) ==
  {[k |-> "hover", x |-> x, y |-> y, areas |-> a] : x \in {0, 1, 2, 3}, y \in {0, 1}, a \in AreaSets}
  \cup (IF s.over = "" THEN {[k |-> "menu", x |-> x, y |-> y, mw |-> mw, mh |-> mh, sw |-> 3, sh |-> 2]
       : x \in 0..2, y \in 0..1, mw \in 0..4, mh \in 0..3} ELSE {})
  \cup {[k |-> "reset"]}
PowerOps(s) == {[k |-> "power", on |-> b] : b \in BOOLEAN} \cup {[k |-> "out", ok |-> b] : b \in BOOLEAN}
====

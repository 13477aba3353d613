------------------------------- MODULE TermOps -------------------------------
(* The terminal operations API: what each operation must do to the terminal, stated directly (m), next
   to what the bytes the implementation wrote do to the terminal of Term.tla (t).  Without recorded
   bytes (exploration) the specification's own encoding of the operation is fed to t, so TLC also
   checks that the encoding design means what the operation promises.                              *)
EXTENDS Term

Init0(cfg) ==
  [t |-> TermNew(cfg.w, cfg.h), m |-> TermNew(cfg.w, cfg.h), style |-> 0, mstyle |-> 0,
   saved |-> FALSE, sx |-> 1, sy |-> 1, raw |-> FALSE, tty |-> cfg.tty, broken |-> FALSE, hung |-> FALSE,
   err |-> FALSE, val |-> <<>>]

\* ---------------------------------------------------------------- the encoding of the specification
C(f, p) == [t |-> "csi", q |-> "", f |-> f, p |-> p]
Q(f, n) == [t |-> "csi", q |-> "?", f |-> f, p |-> <<n>>]
TxtToks(txt) == [k \in 1..Len(txt) |-> IF txt[k] < 1032 THEN [t |-> "c", n |-> txt[k] - 1000] ELSE [t |-> "p", a |-> <<txt[k]>>]]
StyleCode(n) == 2 * n + 2
Enc(s, op) ==
  CASE op.k = "setpos" -> <<C("H", <<op.y + 1, op.x + 1>>)>>
    [] op.k = "up" -> IF op.n > 0 THEN <<C("A", <<op.n>>)>> ELSE <<>>
    [] op.k = "down" -> IF op.n > 0 THEN <<C("B", <<op.n>>)>> ELSE <<>>
    [] op.k = "right" -> IF op.n > 0 THEN <<C("C", <<op.n>>)>> ELSE <<>>
    [] op.k = "left" -> IF op.n > 0 THEN <<C("D", <<op.n>>)>> ELSE <<>>
    [] op.k = "save" -> <<C("s", <<>>)>>
    [] op.k = "restore" -> <<C("u", <<>>)>>
    [] op.k = "hide" -> <<Q("l", 25)>>
    [] op.k = "show" -> <<Q("h", 25)>>
    [] op.k = "style" -> IF op.n \in 0..2 THEN <<C(" q", <<StyleCode(op.n)>>)>> ELSE <<>>
    [] op.k = "clear" -> <<C("J", <<2>>), C("H", <<>>)>>
    [] op.k = "clearline" -> <<[t |-> "c", n |-> 13], C("K", <<2>>)>>
    [] op.k = "clearfrom" -> <<C("J", <<>>)>>
    [] op.k = "clearlines" -> IF op.n <= 0 THEN <<>>
                              ELSE (IF op.n > 1 THEN <<C("A", <<op.n - 1>>)>> ELSE <<>>) \o <<[t |-> "c", n |-> 13], C("J", <<>>)>>
    [] op.k = "write" -> TxtToks(op.txt)
    [] op.k = "writeat" -> <<C("H", <<op.y + 1, op.x + 1>>)>> \o TxtToks(op.txt)
    [] op.k = "alton" -> IF s.m.alt THEN <<>> ELSE <<Q("h", 1049)>>
    [] op.k = "altoff" -> IF s.m.alt THEN <<Q("l", 1049)>> ELSE <<>>
    [] OTHER -> <<>>
\* cursor style is not part of the screen of Term.tla: the last DECSCUSR wins
StyleOf(toks, d) == FoldLeft(LAMBDA x, k : IF k.t = "csi" /\ k.f = " q" /\ Len(k.p) = 1 THEN k.p[1] ELSE x, d, toks)
NoStyle(toks) == SelectSeq(toks, LAMBDA k : ~(k.t = "csi" /\ k.f = " q" /\ Len(k.p) = 1))

\* ---------------------------------------------------------------- the documented effect
At(m, x, y) == [m EXCEPT !.x = Clamp(x, 1, m.w), !.y = Clamp(y, 1, m.h), !.pend = FALSE]
Move(m, n, dx, dy) == IF n <= 0 THEN m ELSE At(m, m.x + dx * n, m.y + dy * n)
ClearRows(m, y0) == [m EXCEPT !.rows = [r \in 1..m.h |-> IF r >= y0 THEN BlankRow(m.w, Sgr0) ELSE m.rows[r]], !.pend = FALSE]
ClearRest(m) ==                       \* from the cursor to the end of the screen
  LET row == m.rows[m.y]
      \* half of a wide character left of the cursor is blanked too
      cut == [k \in 1..m.w |-> IF k >= m.x THEN Blank
                               ELSE IF k = m.x - 1 /\ W(row[k][1]) = 2 /\ row[k][1] # 0 THEN Blank ELSE row[k]]
  IN [ClearRows(m, m.y + 1) EXCEPT !.rows[m.y] = cut]
Writes == {"setpos", "up", "down", "left", "right", "save", "restore", "hide", "show", "style", "clear", "clearline",
           "clearfrom", "clearlines", "write", "writeat", "alton", "altoff"}
Silent(s, op) ==
  \/ op.k \in {"up", "down", "left", "right", "clearlines"} /\ op.n <= 0
  \/ op.k = "write" /\ op.txt = <<>>
\* reported errors
Err(s, op) ==
  CASE op.k = "style" /\ op.n \notin 0..2 -> TRUE
    [] op.k = "alton" /\ s.m.alt -> TRUE
    [] op.k = "altoff" /\ ~s.m.alt -> TRUE
    [] op.k \in Writes -> s.broken /\ ~Silent(s, op)
    [] op.k = "rawon" -> s.raw \/ ~s.tty \/ s.hung
    [] op.k = "rawoff" -> ~s.raw \/ s.hung
    [] op.k \in {"getpos", "readbuf"} -> TRUE
    [] op.k = "size" -> TRUE
    [] OTHER -> FALSE
Effect(s, op) ==
  LET m == s.m IN
  CASE op.k = "setpos" -> [s EXCEPT !.m = At(m, op.x + 1, op.y + 1)]
    [] op.k = "up" -> [s EXCEPT !.m = Move(m, op.n, 0, -1)]
    [] op.k = "down" -> [s EXCEPT !.m = Move(m, op.n, 0, 1)]
    [] op.k = "left" -> [s EXCEPT !.m = Move(m, op.n, -1, 0)]
    [] op.k = "right" -> [s EXCEPT !.m = Move(m, op.n, 1, 0)]
    [] op.k = "save" -> [s EXCEPT !.saved = TRUE, !.sx = m.x, !.sy = m.y]
    [] op.k = "restore" -> [s EXCEPT !.m = At(m, s.sx, s.sy)]
    [] op.k = "hide" -> [s EXCEPT !.m.vis = FALSE]
    [] op.k = "show" -> [s EXCEPT !.m.vis = TRUE]
    [] op.k = "style" -> [s EXCEPT !.mstyle = StyleCode(op.n)]
    [] op.k = "clear" -> [s EXCEPT !.m = At(ClearRows(m, 1), 1, 1)]
    [] op.k = "clearline" -> [s EXCEPT !.m = At([m EXCEPT !.rows[m.y] = BlankRow(m.w, Sgr0)], 1, m.y)]
    [] op.k = "clearfrom" -> [s EXCEPT !.m = ClearRest(m)]
    [] op.k = "clearlines" -> IF op.n <= 0 THEN s
                              ELSE LET y0 == MaxOf(m.y - (op.n - 1), 1) IN [s EXCEPT !.m = At(ClearRows(m, y0), 1, y0)]
    [] op.k = "write" -> [s EXCEPT !.m = Feed(m, TxtToks(op.txt))]
    [] op.k = "writeat" -> [s EXCEPT !.m = Feed(At(m, op.x + 1, op.y + 1), TxtToks(op.txt))]
    \* a fresh empty screen; leaving it discards it and brings everything back
    [] op.k = "alton" -> [s EXCEPT !.m = [ClearRows(m, 1) EXCEPT !.alt = TRUE, !.main = m.rows, !.msave = <<m.x, m.y, m.sgr>>], !.saved = FALSE]
    [] op.k = "altoff" -> [s EXCEPT !.m = [At(m, m.msave[1], m.msave[2]) EXCEPT !.alt = FALSE, !.rows = m.main, !.main = <<>>], !.saved = FALSE]
    [] op.k = "rawon" -> [s EXCEPT !.raw = TRUE]
    [] op.k = "rawoff" -> [s EXCEPT !.raw = FALSE]
    [] op.k = "break" -> [s EXCEPT !.broken = TRUE]
    [] op.k = "hangup" -> [s EXCEPT !.hung = TRUE]
    [] OTHER -> s
Depth(ct, te) ==
  IF ct \in {"truecolor", "24bit"} THEN 16777216
  ELSE IF te \in {"xterm-256color", "screen-256color", "tmux-256color"} THEN 256 ELSE 16
B2(b) == IF b THEN 1 ELSE 0
Val(s, op) ==
  CASE op.k = "size" -> <<80, 24>>
    [] op.k = "ptysize" -> <<op.w, op.h>>
    [] op.k = "depth" -> <<Depth(op.ct, op.te), B2(Depth(op.ct, op.te) = 16777216)>>
    [] op.k = "caps" -> <<0, 0, 1>>             \* no direct positioning, no readback, Unix
    [] op.k = "getpos" -> <<0, 0>>
    [] OTHER -> <<>>

Apply(s, op) ==
  LET e == Err(s, op)
      s1 == IF e THEN s ELSE Effect(s, op)
      toks == IF Has(op, "out") THEN op.out ELSE IF e THEN <<>> ELSE Enc(s, op)
      s2 == [s1 EXCEPT !.err = e, !.val = Val(s, op)]
  IN [s2 EXCEPT !.t = Feed(s.t, NoStyle(toks)), !.style = StyleOf(toks, s.style)]

Scr(u) == <<u.rows, u.x, u.y, u.pend, u.vis, u.alt, u.main, u.sgr, u.modes, u.err>>
Faithful(s) == Scr(s.t) = Scr(s.m) /\ s.style = s.mstyle
\* raw/cooked as the kernel reports them; after a hangup nobody can tell
Obs(s) == [screen |-> Faithful(s), err |-> s.err, alt |-> s.m.alt, raw |-> s.raw,
           cooked |-> IF s.hung THEN TRUE ELSE ~s.raw, val |-> s.val]

Inv(s) == Faithful(s)
StepOk(s, op, s2) ==
  /\ s2.err => /\ s2.m = s.m /\ s2.raw = s.raw
               /\ (~Has(op, "out")) => s2.t = s.t
  /\ op.k = "altoff" /\ ~s2.err => s2.m.rows = s.m.main

(* ------------------------------------------------------------------ small scope *)
Cfgs == {[w |-> 3, h |-> 2, tty |-> TRUE]}
Ops(s) ==
  {[k |-> "setpos", x |-> x, y |-> y] : x \in {0, 2, 5}, y \in {0, 1}}
  \cup {[k |-> d, n |-> n] : d \in {"up", "down", "left", "right", "clearlines"}, n \in {0, 1, 2}}
  \cup {[k |-> k] : k \in {"save", "hide", "show", "clear", "clearline", "clearfrom", "alton", "altoff", "rawon", "rawoff"}}
  \cup (IF s.saved THEN {[k |-> "restore"]} ELSE {})
  \cup {[k |-> "write", txt |-> x] : x \in {<<1097>>, <<2001>>, <<1098, 1099, 1100>>, <<1013, 1010>>}}
  \cup {[k |-> "writeat", x |-> 1, y |-> 1, txt |-> <<2001>>], [k |-> "style", n |-> 1]}
  \cup (IF s.broken THEN {} ELSE {[k |-> "break"]})
=============================================================================

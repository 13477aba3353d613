------------------------------- MODULE Render -------------------------------
(* The differential renderer: buffers of styled cells, and what the terminal must show after each
   Render.  Recorded events carry the bytes the real renderer wrote (op.out, tokenised); they are fed
   to the terminal of Term.tla.  Without op.out (exploration) the specification's own differential
   renderer produces the bytes, so TLC also checks that design.                                     *)
EXTENDS Term

Sty(j) == <<j.fg, j.bg, SeqSet(j.at)>>
NewBuf(w, h) == [w |-> MaxOf(w, 0), h |-> MaxOf(h, 0), c |-> [r \in 1..MaxOf(h, 0) |-> [k \in 1..MaxOf(w, 0) |-> Blank]]]

SetCell(b, x, y, cell) ==
  IF x \in 0..(b.w - 1) /\ y \in 0..(b.h - 1) THEN [b EXCEPT !.c[y + 1][x + 1] = cell] ELSE b

\* returns <<buffer, next x>>
RECURSIVE PutStr(_, _, _, _, _)
PutStr(b, x, y, txt, st) ==
  IF txt = <<>> \/ x >= b.w THEN <<b, x>>
  ELSE IF W(txt[1]) = 0 THEN PutStr(b, x, y, Tail(txt), st)
  ELSE PutStr(SetCell(b, x, y, <<txt[1], st>>), x + W(txt[1]), y, Tail(txt), st)
SetStr(b, x, y, txt, st) ==
  IF y < 0 \/ y >= b.h \/ x < 0 THEN <<b, 0>>
  ELSE LET r == PutStr(b, x, y, txt, st) IN <<r[1], r[2] - x>>
SetLine(b, y, txt, st) ==
  IF y < 0 \/ y >= b.h THEN b
  ELSE LET r == SetStr(b, 0, y, txt, st) IN
       [r[1] EXCEPT !.c[y + 1] = [k \in 1..b.w |-> IF k > r[2] THEN Blank ELSE @[k]]]

\* one buffer row as a terminal shows it: a wide character covers the next column; one that does not
\* fit at the end of the row is blank
RECURSIVE ShowRow(_, _)
ShowRow(row, k) ==
  IF k > Len(row) THEN <<>>
  ELSE LET c == row[k] IN
       IF W(c[1]) = 2
       THEN IF k = Len(row) THEN <<<<SP, c[2]>>>>
            ELSE <<c, <<0, c[2]>>>> \o ShowRow(row, k + 2)
       ELSE <<c>> \o ShowRow(row, k + 1)

\* the whole terminal when buffer b was rendered last
Expect(s, b) ==
  [r \in 1..s.th |->
     LET row == IF r <= b.h THEN ShowRow(b.c[r], 1) ELSE <<>>
     IN [k \in 1..s.tw |-> IF k <= Len(row) THEN Look(row[k]) ELSE Blank]]
AllBlank(w, h) == [r \in 1..h |-> [k \in 1..w |-> Blank]]

Init0(cfg) ==
  LET tw == IF Has(cfg, "tw") THEN cfg.tw ELSE 14
      th == IF Has(cfg, "th") THEN cfg.th ELSE 7 IN
  [tw |-> tw, th |-> th, w |-> cfg.w, h |-> cfg.h, bufs |-> <<NewBuf(cfg.w, cfg.h), NewBuf(cfg.w, cfg.h)>>,
   term |-> TermNew(tw, th), exp |-> AllBlank(tw, th), vis |-> TRUE, closed |-> FALSE, ret |-> 0, small |-> IF Has(cfg, "small") THEN cfg.small ELSE 0]

(* -------------------------------------------------- the specification's own renderer (exploration) *)
SgrTok(sg) ==
  [t |-> "csi", q |-> "", f |-> "m",
   p |-> <<0>> \o (IF sg[1] < 0 THEN <<>> ELSE <<38, 5, sg[1]>>) \o (IF sg[2] < 0 THEN <<>> ELSE <<48, 5, sg[2]>>)
         \o SetToSortSeq(sg[3], LAMBDA a, b : a < b)]
GotoTok(x, y) == [t |-> "csi", q |-> "", f |-> "H", p |-> <<y, x>>]
CellToks(x, y, c) == <<GotoTok(x, y), SgrTok(c[2]), [t |-> "p", a |-> <<c[1]>>]>>
DiffToks(old, new) ==
  Cat([r \in 1..Len(new) |-> Cat([k \in 1..Len(new[r]) |->
        IF new[r][k][1] # 0 /\ (old[r][k] # new[r][k]
              \/ (W(new[r][k][1]) = 2 /\ old[r][k + 1][1] # 0))
        THEN CellToks(k, r, new[r][k]) ELSE <<>>])])
Out(s, op, s2) ==
  IF Has(op, "out") THEN op.out
  ELSE IF op.k = "render" THEN DiffToks(s.exp, s2.exp)
  ELSE IF op.k \in {"clear", "resize"} THEN <<SgrTok(Sgr0), [t |-> "csi", q |-> "", f |-> "J", p |-> <<2>>]>>
  ELSE IF op.k = "close" THEN <<SgrTok(Sgr0)>>
  ELSE <<>>

\* what a buffer says about its size
Sized(s, op) == [s EXCEPT !.ret = 1000 * s.bufs[op.b].w + s.bufs[op.b].h]
OnBuf(s, op, b) == [s EXCEPT !.bufs[op.b] = b, !.ret = 0]
Act(s, op) ==
  CASE op.k = "buf" -> Sized(OnBuf(s, op, NewBuf(op.w, op.h)), op)
    [] op.k = "pool" -> Sized(OnBuf(s, op, NewBuf(s.w, s.h)), op)
    [] op.k = "set" -> OnBuf(s, op, SetCell(s.bufs[op.b], op.x, op.y, <<op.a, Sty(op.st)>>))
    [] op.k = "str" -> LET r == SetStr(s.bufs[op.b], op.x, op.y, op.txt, Sty(op.st)) IN [OnBuf(s, op, r[1]) EXCEPT !.ret = r[2]]
    [] op.k = "line" -> OnBuf(s, op, SetLine(s.bufs[op.b], op.y, op.txt, Sty(op.st)))
    [] op.k = "fill" -> OnBuf(s, op, [s.bufs[op.b] EXCEPT !.c = [r \in 1..s.bufs[op.b].h |-> [k \in 1..s.bufs[op.b].w |-> <<op.a, Sty(op.st)>>]]])
    [] op.k = "clearbuf" -> OnBuf(s, op, NewBuf(s.bufs[op.b].w, s.bufs[op.b].h))
    [] op.k = "release" -> Sized(OnBuf(s, op, NewBuf(s.w, s.h)), op)    \* a fresh buffer takes the slot
    [] op.k = "render" -> [s EXCEPT !.exp = Expect(s, s.bufs[op.b]), !.w = s.bufs[op.b].w, !.h = s.bufs[op.b].h, !.ret = 0]
    [] op.k = "clear" -> [s EXCEPT !.exp = AllBlank(s.tw, s.th), !.ret = 0]
    [] op.k = "resize" -> [s EXCEPT !.exp = AllBlank(s.tw, s.th), !.w = op.w, !.h = op.h, !.ret = 0]
    [] op.k = "hide" -> [s EXCEPT !.vis = FALSE, !.ret = 0]
    [] op.k = "show" -> [s EXCEPT !.vis = TRUE, !.ret = 0]
    [] op.k = "close" -> [s EXCEPT !.vis = TRUE, !.closed = TRUE, !.ret = 0]

Apply(s, op) == LET s2 == Act(s, op) IN [s2 EXCEPT !.term = Feed(s.term, Out(s, op, s2))]

Faithful(s) ==
  /\ s.term.err = 0
  /\ Look2(s.term.rows) = s.exp
  /\ s.term.scrolled = 0
  /\ s.closed => s.term.sgr = Sgr0
VisOK(s) == s.term.vis = s.vis
Obs(s) == [shown |-> Faithful(s), vis |-> VisOK(s), w |-> s.w, h |-> s.h, ret |-> s.ret]
\* the recorded observation only has what the API reports; the screen is judged against TRUE
Inv(s) == Faithful(s)
StepOk(s, op, s2) == op.k = "render" => (s.exp = s2.exp => s2.term.rows = s.term.rows)

(* ------------------------------------------------------------------ small scope *)
P0 == [fg |-> -1, bg |-> -1, at |-> <<>>]
P1 == [fg |-> 1, bg |-> -1, at |-> <<1>>]
P2 == [fg |-> -1, bg |-> 2, at |-> <<>>]
Cfgs == {[w |-> 3, h |-> 1, small |-> 1], [w |-> 2, h |-> 2, small |-> 1]}
Ops(s) ==
  {[k |-> "set", b |-> 1, x |-> x, y |-> y, a |-> a, st |-> st] :
        x \in 0..(s.w - 1), y \in 0..(s.h - 1), a \in {1097, 2001}, st \in {P0, P1}}
  \cup {[k |-> "set", b |-> 1, x |-> x, y |-> 0, a |-> SP, st |-> P2] : x \in 0..(s.w - 1)}
  \cup {[k |-> "str", b |-> 1, x |-> x, y |-> 0, txt |-> <<2001, 1098>>, st |-> P1] : x \in {0, 1}}
  \cup {[k |-> "clearbuf", b |-> 1], [k |-> "render", b |-> 1], [k |-> "clear"]}
=============================================================================

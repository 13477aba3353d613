------------------------------- MODULE Inline -------------------------------
(* The inline (no alternate screen) display of a running program.  A view is a sequence of lines, a
   line a sequence of items: an atom, or -(c+1) for the SGR code c.  Recorded operations carry the
   bytes the program wrote (op.out, tokenised); they are fed to the terminal of Term.tla, whose screen
   must show the rows above the frame untouched, then exactly the lines of the view, then nothing.
   Without op.out (exploration) the line-diffing design below produces the bytes.                    *)
EXTENDS Term

\* ------------------------------------------------- what a view looks like, printed on a blank screen
RECURSIVE Row(_, _, _, _, _)
\* <<cells, style at the end>>; full: something did not fit already
Row(items, w, sgr, cells, full) ==
  IF items = <<>> THEN <<cells, sgr>>
  ELSE LET a == items[1] IN
       IF a < 0 THEN Row(Tail(items), w, SgrApply(sgr, <<-a - 1>>), cells, full)
       ELSE IF full \/ (w > 0 /\ Len(cells) + W(a) > w) THEN Row(Tail(items), w, sgr, cells, TRUE)
       ELSE Row(Tail(items), w, sgr, cells \o (IF W(a) = 2 THEN <<<<a, sgr>>, <<0, sgr>>>> ELSE IF W(a) = 0 THEN <<>> ELSE <<<<a, sgr>>>>), FALSE)
RECURSIVE Rows(_, _, _)
Rows(lines, w, sgr) ==
  IF lines = <<>> THEN <<>>
  ELSE LET r == Row(lines[1], w, sgr, <<>>, FALSE) IN <<r[1]>> \o Rows(Tail(lines), w, r[2])
\* a view taller than the terminal shows its last lines
Frame(view, w, h) ==
  LET r == Rows(view, w, Sgr0) IN IF h > 0 /\ Len(r) > h THEN Drop(r, Len(r) - h) ELSE r

Fill(row, tw) == [k \in 1..tw |-> IF k <= Len(row) THEN Look(row[k]) ELSE Blank]
\* the screen: what stays above, the frame, nothing below
Screen(s) ==
  LET f == s.frame IN
  [r \in 1..s.th |->
     IF r <= Len(s.above) THEN s.above[r]
     ELSE IF r - Len(s.above) <= Len(f) THEN Fill(f[r - Len(s.above)], s.tw)
     ELSE Fill(<<>>, s.tw)]

Shell(cfg) == [r \in 1..cfg.y0 |-> Fill(<<<<1036, Sgr0>>>>, cfg.tw)]
Init0(cfg) ==
  LET t == TermNew(cfg.tw, cfg.th)
      sh == Shell(cfg)
      t1 == [t EXCEPT !.rows = [r \in 1..cfg.th |-> IF r <= cfg.y0 THEN sh[r] ELSE @[r]], !.y = cfg.y0 + 1] IN
  [tw |-> cfg.tw, th |-> cfg.th, w |-> 0, h |-> 0, view |-> cfg.lines, above |-> sh, frame |-> <<>>, drawn |-> FALSE,
   susp |-> FALSE, force |-> TRUE, term |-> t1, on |-> FALSE, small |-> Has(cfg, "small")]

\* a terminal resized to another width crops or extends its rows (xterm; no reflow)
CropRow(row, w) ==
  LET r == [k \in 1..w |-> IF k <= Len(row) THEN row[k] ELSE Blank] IN
  IF w < Len(row) /\ W(r[w][1]) = 2 THEN [r EXCEPT ![w] = <<SP, @[2]>>] ELSE r
Widen(s, w) ==
  [s EXCEPT !.tw = w, !.frame = [r \in 1..Len(@) |-> IF Len(@[r]) > w THEN CropRow(@[r], w) ELSE @[r]],
            !.above = [r \in 1..Len(@) |-> LookRow(CropRow(@[r], w))],
            !.term = [@ EXCEPT !.w = w, !.rows = [r \in 1..Len(@) |-> CropRow(@[r], w)], !.x = MinOf(@, w), !.pend = FALSE]]

Draw(s) ==
  IF s.susp \/ ~s.on THEN s
  ELSE LET f == Frame(s.view, s.w, s.h)
           over == MaxOf(Len(s.above) + Len(f) - s.th, 0)
       IN [s EXCEPT !.frame = f, !.above = Drop(@, over), !.drawn = TRUE, !.force = FALSE]

Act(s, op) ==
  CASE op.k = "start" -> Draw([s EXCEPT !.on = TRUE])
    [] op.k = "view" -> Draw([s EXCEPT !.view = op.lines])
    [] op.k = "size" -> Draw([Widen(s, op.w) EXCEPT !.w = op.w, !.h = op.h, !.force = TRUE])
    [] op.k = "suspend" -> [s EXCEPT !.susp = TRUE]
    [] op.k = "resume" -> Draw([s EXCEPT !.susp = FALSE, !.force = TRUE])

(* ---------------------------------------------------------- the specification's own line differ *)
Tk(f, n) == [t |-> "csi", q |-> "", f |-> f, p |-> <<n>>]
Sty2(sg) == [t |-> "csi", q |-> "", f |-> "m",
   p |-> <<0>> \o (IF sg[1] < 0 THEN <<>> ELSE <<38, 5, sg[1]>>) \o (IF sg[2] < 0 THEN <<>> ELSE <<48, 5, sg[2]>>)
         \o SetToSortSeq(sg[3], LAMBDA a, b : a < b)]
CrT == [t |-> "c", n |-> 13]
LfT == [t |-> "c", n |-> 10]
LineToks(row, tw) ==
  Cat([k \in 1..Len(row) |-> IF row[k][1] = 0 THEN <<>> ELSE <<Sty2(row[k][2]), [t |-> "p", a |-> <<row[k][1]>>]>>])
  \o <<Sty2(Sgr0)>> \o (IF Len(row) < tw THEN <<Tk("K", 0)>> ELSE <<>>)
OwnOut(s, s2) ==
  IF (s.susp /\ s2.susp) \/ ~s2.on THEN <<>>
  ELSE LET f == s2.frame
           keep(k) == s.drawn /\ ~s.force /\ k <= Len(s.frame) /\ s.frame[k] = f[k] /\ s.w = s2.w /\ ~s.susp
       IN (IF s.drawn /\ Len(s.frame) > 1 THEN <<Tk("A", Len(s.frame) - 1)>> ELSE <<>>) \o <<CrT>>
          \o Cat([k \in 1..Len(f) |-> (IF keep(k) THEN <<>> ELSE LineToks(f[k], s2.tw)) \o (IF k < Len(f) THEN <<CrT, LfT>> ELSE <<>>)])
          \o (IF s.drawn /\ Len(s.frame) > Len(f) THEN <<CrT, LfT, Tk("J", 0), Tk("A", 1)>> ELSE <<>>) \o <<CrT>>
Out(s, op, s2) == IF Has(op, "out") THEN op.out ELSE IF op.k = "suspend" THEN <<>> ELSE OwnOut(s, s2)

Apply(s, op) == LET s2 == Act(s, op) IN [s2 EXCEPT !.term = Feed(s2.term, Out(s, op, s2))]

Faithful(s) == s.term.err = 0 /\ Look2(s.term.rows) = Screen(s)
\* while suspended the screen belongs to somebody else: the program leaves it alone (Faithful again)
Obs(s) == [shown |-> Faithful(s), quiet |-> TRUE]
Inv(s) == Faithful(s)
StepOk(s, op, s2) ==
  /\ (op.k = "view" /\ op.lines = s.view /\ s.on) => s2.term.rows = s.term.rows
  /\ (s.susp /\ s2.susp /\ op.k # "size") => s2.term = s.term

(* ------------------------------------------------------------------ small scope *)
L1 == <<1097>>
L2 == <<1097, 1098, 2001>>
L3 == <<-32, 1098>>
L4 == <<-1, 1099>>
Views == {<<<<>>>>, <<L1>>, <<L2>>, <<L1, L2>>, <<L2, L1>>, <<L3, L1>>, <<L3, L4, L1>>, <<L1, L1, L1, L2>>}
Cfgs == {[tw |-> 4, th |-> 3, y0 |-> y, lines |-> <<L1>>, small |-> TRUE] : y \in {0, 1, 2}}
Ops(s) ==
  IF ~s.on THEN {[k |-> "start"]}
  ELSE IF s.w = 0 THEN {[k |-> "size", w |-> 4, h |-> 3]}
  ELSE {[k |-> "view", lines |-> v] : v \in Views}
       \cup {[k |-> "size", w |-> w, h |-> h] : w \in {3, 4}, h \in {2, 3}}
       \cup (IF s.susp THEN {[k |-> "resume"]} ELSE {[k |-> "suspend"]})
=============================================================================

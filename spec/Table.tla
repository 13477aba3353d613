------------------------------- MODULE Table -------------------------------
(* A table of rows and columns: a selected row kept in view, sorting by one column at a time.
   cfg.cols: sequence of [title, w, al, sort, rend]; a row is [id, c] with one cell per column;
   a cell is [t, n, s]: its kind, its number (in halves) and the text it is shown as. *)
EXTENDS Base, Words

Init0(cfg) == [cols |-> cfg.cols, rows |-> <<>>, sorted |-> <<>>, by |-> 0, asc |-> TRUE, sel |-> 0, off |-> 0, h |-> 10, hdr |-> TRUE]

Cur(s) == IF s.by = 0 THEN s.rows ELSE s.sorted
N(s) == Len(s.rows)
Fit(s) == MaxOf(1, IF s.hdr THEN s.h - 1 ELSE s.h)
Reveal(s) == IF s.sel < s.off THEN [s EXCEPT !.off = s.sel]
             ELSE IF s.sel >= s.off + Fit(s) THEN [s EXCEPT !.off = s.sel - Fit(s) + 1] ELSE s
Sel(s, k) == Reveal([s EXCEPT !.sel = Clamp(k, 0, MaxOf(0, N(s) - 1))])

\* ---- ordering of cells
Code(a) == CASE a = 1201 -> 233 [] a = 1203 -> 1078 [] a = 1204 -> 223 [] a = 1206 -> 241 [] a = 1209 -> 1046 [] a = 1210 -> 201 [] a = 1211 -> 945
             [] a = 1212 -> 1099 [] a = 2001 -> 19990 [] a = 2002 -> 30028 [] a = 2003 -> 54620 [] a = 2004 -> 128512 [] a = 2009 -> 26412
             [] OTHER -> a - 1000
RECURSIVE LessText(_, _)
LessText(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                  ELSE IF Head(x) = Head(y) THEN LessText(Tail(x), Tail(y)) ELSE Code(Head(x)) < Code(Head(y))
Less(a, b) == CASE b.t = "nil" -> FALSE [] a.t = "nil" -> TRUE
                [] a.t = "str" -> LessText(a.s, b.s)
                [] OTHER -> a.n < b.n
Before(s, c, asc, i, j) ==            \* row i of the data comes before row j
  LET a == s.rows[i].c[c]
      b == s.rows[j].c[c]
  IN IF asc THEN Less(a, b) \/ (~Less(b, a) /\ i < j) ELSE Less(b, a) \/ (~Less(a, b) /\ i < j)
SortRows(s, c, asc) == LET o == SetToSortSeq(1..N(s), LAMBDA i, j : Before(s, c, asc, i, j)) IN [k \in 1..N(s) |-> s.rows[o[k]]]
SortBy(s, c) ==
  IF c \notin 1..Len(s.cols) \/ ~s.cols[c].sort THEN s
  ELSE LET asc == IF s.by = c THEN ~s.asc ELSE TRUE
       IN [s EXCEPT !.sorted = SortRows(s, c, asc), !.by = c, !.asc = asc, !.sel = 0, !.off = 0]
Unsort(s) == [s EXCEPT !.sorted = <<>>, !.by = 0, !.asc = TRUE]

KeyAct(s, op) ==
  CASE op.key = "up" \/ (op.key = "rune" /\ op.r = 1107) -> Sel(s, s.sel - 1)
    [] op.key = "down" \/ (op.key = "rune" /\ op.r = 1106) -> Sel(s, s.sel + 1)
    [] op.key = "home" \/ (op.key = "rune" /\ op.r = 1103) -> Sel(s, 0)
    [] op.key = "end" \/ (op.key = "rune" /\ op.r = 1071) -> LET t == Sel(s, N(s) - 1) IN [t EXCEPT !.off = MaxOf(0, t.sel - Fit(t) + 1)]
    [] op.key = "pgup" -> Sel(s, s.sel - Fit(s))
    [] op.key = "pgdown" -> Sel(s, s.sel + Fit(s))
    [] op.key = "rune" /\ op.r = 1099 -> Unsort(s)
    [] OTHER -> s
Apply(s, op) ==
  CASE op.k = "key" -> KeyAct(s, op)
    [] op.k = "rows" -> [Unsort(s) EXCEPT !.rows = op.rows, !.sel = 0, !.off = 0]
    [] op.k = "height" -> Reveal([s EXCEPT !.h = op.n])
    [] op.k = "header" -> Reveal([s EXCEPT !.hdr = op.on])
    [] op.k = "sort" -> SortBy(s, op.c)
    [] op.k = "clear" -> Unsort(s)
    [] OTHER -> s

\* ---- looks
Plain(t) == [k \in 1..Len(t) |-> IF t[k] = 1010 \/ t[k] = 1009 THEN SP ELSE t[k]]
Fitted(t, w) == IF TW(t) <= w THEN t ELSE IF w > 3 THEN CutTo(t, w - 3) \o <<1046, 1046, 1046>> ELSE CutTo(t, w)
Aligned(t, w, al) ==
  LET p == w - TW(t) IN
  CASE al = 0 -> t \o Spaces(p)
    [] al = 1 -> Spaces(p \div 2) \o t \o Spaces(p - p \div 2)
    [] OTHER -> Spaces(p) \o t
Cell(t, col) == LET w == MaxOf(0, col.w) IN Aligned(Fitted(Plain(t), w), w, col.al)
Shown(cell, col) == IF col.rend THEN <<1060>> \o cell.s \o <<1062>> ELSE IF cell.t = "nil" THEN <<1060, 1110, 1105, 1108, 1062>> ELSE cell.s
Bar == 9474 + 9000
Join(cs, sep) == Cat([k \in 1..Len(cs) |-> (IF k > 1 THEN <<sep>> ELSE <<>>) \o cs[k]])
Mark(t) == IF t = <<>> THEN t ELSE <<1062>> \o Spaces(W(t[1]) - 1) \o Tail(t)
RowLine(s, p) ==
  Join([k \in 1..Len(s.cols) |-> LET t == Cell(Shown(Cur(s)[p].c[k], s.cols[k]), s.cols[k]) IN IF k = 1 /\ p = s.sel + 1 THEN Mark(t) ELSE t], Bar)
Title(s, k) == s.cols[k].title \o (IF s.by # k THEN <<>> ELSE IF s.asc THEN <<SP, 9650 + 9000>> ELSE <<SP, 9660 + 9000>>)
Head2(s) == <<Join([k \in 1..Len(s.cols) |-> Cell(Title(s, k), s.cols[k])], Bar),
              Join([k \in 1..Len(s.cols) |-> Rep(9472 + 9000, MaxOf(0, s.cols[k].w))], 9532 + 9000)>>
Window(s) == [k \in 1..MinOf(Fit(s), N(s) - s.off) |-> s.off + k]
View(s) == (IF s.hdr THEN Head2(s) ELSE <<>>) \o [k \in 1..Len(Window(s)) |-> RowLine(s, Window(s)[k])] \o <<<<>>>>

Ids(rows) == [k \in 1..Len(rows) |-> rows[k].id]
Obs(s) == [view |-> View(s), sel |-> s.sel, row |-> IF N(s) = 0 THEN 0 ELSE Cur(s)[s.sel + 1].id, rows |-> Ids(s.rows), frozen |-> TRUE]

Inv(s) == /\ s.sel >= 0 /\ (N(s) > 0 => s.sel < N(s))
          /\ (N(s) > 0 => s.sel + 1 \in SeqSet(Window(s)))
          /\ s.off >= 0
          /\ (s.by # 0 => SeqSet(Ids(s.sorted)) = SeqSet(Ids(s.rows)) /\ Len(s.sorted) = N(s))
          /\ (s.by # 0 => \A k \in 1..(N(s) - 1) :
                LET a == s.sorted[k].c[s.by]  b == s.sorted[k + 1].c[s.by] IN
                /\ IF s.asc THEN ~Less(b, a) ELSE ~Less(a, b)
                /\ (~Less(a, b) /\ ~Less(b, a)) => s.sorted[k].id < s.sorted[k + 1].id)
          /\ \A k \in 1..(Len(View(s)) - 1) :
                TW(View(s)[k]) = Sum([j \in 1..Len(s.cols) |-> MaxOf(0, s.cols[j].w)]) + MaxOf(0, Len(s.cols) - 1)
StepOk(s, op, s2) == op.k # "rows" => s2.rows = s.rows

Str(t) == [t |-> "str", n |-> 0, s |-> t]
Int2(n) == [t |-> "int", n |-> 2 * n, s |-> Num(n)]
Nil == [t |-> "nil", n |-> 0, s |-> <<>>]
R4 == <<[id |-> 1, c |-> <<Str(<<1098, 2001>>), Int2(10)>>], [id |-> 2, c |-> <<Str(<<1097>>), Int2(9)>>],
        [id |-> 3, c |-> <<Str(<<1098, 2001>>), Nil>>], [id |-> 4, c |-> <<Str(<<1203>>), Int2(10)>>]>>
Cfgs == {[cols |-> <<[title |-> <<1065>>, w |-> 3, al |-> 0, sort |-> TRUE, rend |-> FALSE], [title |-> <<1066>>, w |-> 5, al |-> 2, sort |-> TRUE, rend |-> FALSE]>>]}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"up", "down", "home", "end", "pgup", "pgdown"}}
  \cup {[k |-> "rows", rows |-> R4], [k |-> "height", n |-> 3], [k |-> "height", n |-> 0], [k |-> "header", on |-> FALSE],
        [k |-> "sort", c |-> 1], [k |-> "sort", c |-> 2], [k |-> "clear"]}
=============================================================================

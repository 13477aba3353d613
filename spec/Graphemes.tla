----------------------------- MODULE Graphemes -----------------------------
(* Text as Unicode code points, and how it divides into user-perceived characters (clusters) and
   terminal cells.  Covers the code points the generators use: combining marks, a variation selector,
   skin tones, joiner sequences, flags, wide characters. *)
EXTENDS Base

ZWJ == 8205
Ext == {768, 769, 771, 65039, 127997}
Pict == {128512, 128104, 128105, 128103, 128077, 127881, 10084}
RI == 127462..127487
WideCp == {19990, 30028, 54620, 26412, 65335} \cup (Pict \ {10084})
IsPictJoin(c) == \* c ends with pictograph, marks, joiner
  /\ c[Len(c)] = ZWJ
  /\ \E k \in 1..(Len(c) - 1) : c[k] \in Pict /\ \A j \in (k + 1)..(Len(c) - 1) : c[j] \in Ext
Joins(c, x) == \/ x \in Ext \/ x = ZWJ
               \/ x \in RI /\ Len(c) = 1 /\ c[1] \in RI
               \/ x \in Pict /\ IsPictJoin(c)
\* the clusters of a text
Seg(cps) == FoldLeft(LAMBDA cs, x : IF cs # <<>> /\ Joins(cs[Len(cs)], x)
                                     THEN [cs EXCEPT ![Len(cs)] = Append(@, x)] ELSE Append(cs, <<x>>), <<>>, cps)
CpW(x) == IF x \in WideCp \/ x \in RI THEN 2 ELSE IF x \in Ext \/ x \in {ZWJ, 8203} THEN 0 ELSE 1
ClW(c) == IF c[1] \in Pict THEN (IF 65039 \in SeqSet(Tail(c)) THEN 2 ELSE CpW(c[1])) ELSE CpW(c[1])
CellsOf(cs) == FoldLeft(LAMBDA n, c : n + ClW(c), 0, cs)
Flat(cs) == Cat(cs)

RECURSIVE FirstCells(_, _)
FirstCells(cs, w) == IF cs = <<>> \/ ClW(Head(cs)) > w THEN <<>> ELSE <<Head(cs)>> \o FirstCells(Tail(cs), w - ClW(Head(cs)))
RECURSIVE LastCells(_, _)
LastCells(cs, w) == IF CellsOf(cs) <= w THEN cs ELSE LastCells(Tail(cs), w)
=============================================================================

------------------------------- MODULE Base -------------------------------
(* Vocabulary shared by all specifications: bounded arithmetic and text.
   Text is a sequence of user-perceived characters ("atoms"), numbered so that the number tells the
   display width: 1000..1999 one cell (1000+c is ASCII c), 2000..2999 two cells, 3000..3999 none.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

W(a) == IF a < 2000 THEN 1 ELSE IF a < 3000 THEN 2 ELSE IF a < 4000 THEN 0 ELSE 1
Sum(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
TW(txt) == FoldLeft(LAMBDA x, y : x + W(y), 0, txt)
MaxSeq(q, base) == FoldLeft(LAMBDA x, y : MaxOf(x, y), base, q)
Rep(x, n) == [k \in 1..MaxOf(n, 0) |-> x]
SP == 1032
Spaces(n) == Rep(SP, n)
Cat(qs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, qs)
Take(q, n) == SubSeq(q, 1, MinOf(n, Len(q)))
Drop(q, n) == SubSeq(q, n + 1, Len(q))

RECURSIVE CutTo(_, _)
\* longest prefix that fits in width w
CutTo(txt, w) ==
  IF txt = <<>> \/ W(Head(txt)) > w THEN <<>>
  ELSE <<Head(txt)>> \o CutTo(Tail(txt), w - W(Head(txt)))

RECURSIVE WrapAt(_, _, _, _)
WrapAt(txt, w, cur, cw) ==
  IF txt = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET g == Head(txt) IN
       IF cw + W(g) > w /\ cw > 0
       THEN <<cur>> \o WrapAt(Tail(txt), w, <<g>>, W(g))
       ELSE WrapAt(Tail(txt), w, Append(cur, g), cw + W(g))
\* greedy wrapping of one line at width w > 0; a line that fits is kept as it is
WrapLine(txt, w) == IF TW(txt) <= w THEN <<txt>> ELSE WrapAt(txt, w, <<>>, 0)

PadTo(txt, w) == txt \o Spaces(w - TW(txt))
SeqSet(q) == {q[k] : k \in 1..Len(q)}
Has(r, f) == f \in DOMAIN r
============================================================================

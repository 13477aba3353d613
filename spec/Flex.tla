-------------------------------- MODULE Flex --------------------------------
(* Rows and columns of boxes. *)
EXTENDS LayBox

Init0(cfg) == [row |-> cfg.row, items |-> <<>>, gap |-> 0, justify |-> "start", align |-> "stretch", size |-> NoSize, pw |-> cfg.pw, ph |-> cfg.ph]
Apply(s, op) ==
  CASE op.k = "add" -> [s EXCEPT !.items = Append(@, FoldLeft(LAMBDA b, o : BoxStep(b, o), NewBox(op.c), op.ops))]
    [] op.k = "gap" -> [s EXCEPT !.gap = op.n]
    [] op.k = "justify" -> [s EXCEPT !.justify = op.v]
    [] op.k = "align" -> [s EXCEPT !.align = op.v]
    [] op.k = "size" -> [s EXCEPT !.size[op.v] = MaxOf(op.n, -1)]
    [] op.k = "late" -> s    \* a box which has been added is changed: the container has its own

AvailW(s) == ConstrainW(s.size, s.pw)
AvailH(s) == ConstrainH(s.size, s.ph)
Area2(rows) == IF rows = << <<>> >> THEN <<0, 0>> ELSE <<Wide(rows), Len(rows)>>
\* main and cross size of an area
Main(s, a) == IF s.row THEN a[1] ELSE a[2]
Cross(s, a) == IF s.row THEN a[2] ELSE a[1]
Areas(s) == [k \in 1..Len(s.items) |-> Area2(Draw(s.items[k]))]
Stretched(s, b, a) ==
  IF s.align # "stretch" THEN b
  ELSE IF s.row THEN LET h == ConstrainH(b.size, AvailH(s)) IN IF h > a[2] THEN [b EXCEPT !.size.h = h] ELSE b
  ELSE LET w == ConstrainW(b.size, AvailW(s)) IN IF w > a[1] THEN [b EXCEPT !.size.w = w] ELSE b

Total(s) == LET as == Areas(s) IN Sum([k \in 1..Len(as) |-> Main(s, as[k])]) + s.gap * P(Len(as) - 1)
Room(s) == IF s.row THEN AvailW(s) ELSE AvailH(s)
Free(s) == P(Room(s) - Total(s))
\* what lies before item k beside the items and gaps before it
Lead(s, k) ==
  CASE s.justify = "start" -> 0
    [] s.justify = "end" -> Free(s)
    [] s.justify = "center" -> Free(s) \div 2
    [] s.justify = "between" -> IF Len(s.items) = 1 THEN 0 ELSE (Free(s) * (k - 1)) \div (Len(s.items) - 1)
MainAt(s, k) == LET as == Areas(s) IN Lead(s, k) + Sum([j \in 1..(k - 1) |-> Main(s, as[j]) + s.gap])
CrossAt(s, k) ==
  LET n == Cross(s, Areas(s)[k])
      r == IF s.row THEN AvailH(s) ELSE AvailW(s)
  IN CASE s.align \in {"stretch", "start"} -> 0 [] s.align = "end" -> P(r - n) [] s.align = "center" -> IF r <= n THEN 0 ELSE (r - n) \div 2
X(s, k) == IF s.row THEN MainAt(s, k) ELSE CrossAt(s, k)
Y(s, k) == IF s.row THEN CrossAt(s, k) ELSE MainAt(s, k)

Picture(s) ==
  LET as == Areas(s)
      drawn == [k \in 1..Len(s.items) |-> Draw(Stretched(s, s.items[k], as[k]))]
      xs == [k \in 1..Len(s.items) |-> X(s, k)]
      ys == [k \in 1..Len(s.items) |-> Y(s, k)]
      Row(y) == FoldLeft(LAMBDA l, k : IF y - ys[k] \in 1..Len(drawn[k]) THEN PadTo(l, xs[k]) \o drawn[k][y - ys[k]] ELSE l, <<>>, [k \in 1..Len(s.items) |-> k])
  IN [y \in 1..AvailH(s) |-> PadTo(CutTo(Row(y), AvailW(s)), AvailW(s))]
Obs(s) == [t |-> IF AvailH(s) = 0 THEN << <<>> >> ELSE Picture(s)]

Inv(s) ==
  LET as == Areas(s)  n == Len(s.items) IN
  \* in order, at least the gap between them
  /\ \A k \in 1..(n - 1) : MainAt(s, k) + Main(s, as[k]) + s.gap <= MainAt(s, k + 1)
  /\ n > 0 => /\ MainAt(s, 1) >= 0
              /\ Total(s) <= Room(s) => MainAt(s, n) + Main(s, as[n]) <= Room(s)
              /\ s.justify \in {"end", "between"} /\ Total(s) <= Room(s) /\ (s.justify = "end" \/ n > 1) => MainAt(s, n) + Main(s, as[n]) = Room(s)
              /\ s.justify \in {"start", "between"} => MainAt(s, 1) = 0
              \* shares differ by one cell at most
              /\ s.justify = "between" => \A j, k \in 1..(n - 1) : (Lead(s, j + 1) - Lead(s, j)) - (Lead(s, k + 1) - Lead(s, k)) \in {-1, 0, 1}
              /\ s.justify = "center" /\ Total(s) <= Room(s) => (Room(s) - (MainAt(s, n) + Main(s, as[n]))) - MainAt(s, 1) \in {0, 1}
  /\ \A k \in 1..n : CrossAt(s, k) >= 0 /\ (Cross(s, as[k]) <= (IF s.row THEN AvailH(s) ELSE AvailW(s)) => CrossAt(s, k) + Cross(s, as[k]) <= (IF s.row THEN AvailH(s) ELSE AvailW(s)))
  /\ \A y \in 1..Len(Picture(s)) : TW(Picture(s)[y]) = AvailW(s)
StepOk(s, op, s2) == TRUE

Cfgs == {[row |-> r, pw |-> 13, ph |-> 6] : r \in BOOLEAN}
Ops(s) ==
  {[k |-> "add", c |-> << <<1097>> >>, ops |-> <<[k |-> "border", on |-> TRUE]>>], [k |-> "add", c |-> << <<2001, 1098>>, <<1202>> >>, ops |-> <<>>],
   [k |-> "add", c |-> << <<1097, 1098, 1099>> >>, ops |-> <<[k |-> "size", v |-> "w", n |-> 2], [k |-> "mar", side |-> "all", n |-> 1]>>]}
  \cup {[k |-> "gap", n |-> n] : n \in {1, 2} \ {s.gap}} \cup {[k |-> "justify", v |-> v] : v \in {"end", "center", "between"} \ {s.justify}}
  \cup {[k |-> "align", v |-> v] : v \in {"start", "end", "center"} \ {s.align}} \cup {[k |-> "size", v |-> "w", n |-> 7], [k |-> "size", v |-> "h", n |-> 4]}
============================================================================

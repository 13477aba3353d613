------------------------------- MODULE LayBox -------------------------------
(* Layout boxes: content, padding, border, margin and size constraints; and the lines they are drawn as. *)
EXTENDS Base

Zero4 == <<0, 0, 0, 0>>   \* top, right, bottom, left
P(x) == MaxOf(x, 0)
NoSize == [w |-> -1, h |-> -1, minw |-> -1, maxw |-> -1, minh |-> -1, maxh |-> -1]
NewBox(c) == [c |-> c, pad |-> Zero4, mar |-> Zero4, border |-> FALSE, size |-> NoSize, ha |-> "left", va |-> "top"]

Four(op) == CASE op.side = "all" -> <<P(op.n), P(op.n), P(op.n), P(op.n)>>
              [] op.side = "vh" -> <<P(op.n), P(op.m), P(op.n), P(op.m)>>
              [] op.side = "given" -> [k \in 1..4 |-> P(op.q[k])]
BoxStep(b, op) ==
  CASE op.k = "pad" -> [b EXCEPT !.pad = Four(op)]
    [] op.k = "mar" -> [b EXCEPT !.mar = Four(op)]
    [] op.k = "border" -> [b EXCEPT !.border = op.on]
    [] op.k = "size" -> [b EXCEPT !.size[op.v] = MaxOf(op.n, -1)]
    [] op.k = "align" -> [b EXCEPT !.ha = op.h, !.va = op.v]

Bound(x, e, lo, hi) == IF e >= 0 THEN e ELSE LET y == IF lo >= 0 /\ x < lo THEN lo ELSE x IN IF hi >= 0 /\ y > hi THEN hi ELSE y
ConstrainW(s, x) == Bound(x, s.w, s.minw, s.maxw)
ConstrainH(s, x) == Bound(x, s.h, s.minh, s.maxh)
Offset(a, n, room) == IF n >= room THEN 0 ELSE IF a \in {"center", "middle"} THEN (room - n) \div 2 ELSE IF a \in {"right", "bottom"} THEN room - n ELSE 0

Wide(ls) == MaxSeq([k \in 1..Len(ls) |-> TW(ls[k])], 0)
FrameW(b) == b.pad[2] + b.pad[4] + b.mar[2] + b.mar[4] + (IF b.border THEN 4 ELSE 0)
FrameH(b) == b.pad[1] + b.pad[3] + b.mar[1] + b.mar[3] + (IF b.border THEN 2 ELSE 0)
Bare(b) == b.pad = Zero4 /\ b.mar = Zero4 /\ ~b.border /\ b.size = NoSize
\* the room left for the content
AreaW(b) == P(ConstrainW(b.size, Wide(b.c) + FrameW(b)) - FrameW(b))
AreaH(b) == P(ConstrainH(b.size, Len(b.c) + FrameH(b)) - FrameH(b))
Area(b) ==
  LET w == AreaW(b)  h == AreaH(b)
      x == Offset(b.ha, Wide(b.c), w)  y == Offset(b.va, Len(b.c), h)
  IN [k \in 1..h |-> IF k - y \in 1..Len(b.c) THEN PadTo(Spaces(x) \o CutTo(b.c[k - y], w - x), w) ELSE Spaces(w)]
Ch(cp) == 9000 + cp
Draw(b) ==
  IF Bare(b) THEN b.c
  ELSE LET ar == Area(b)
           wide == AreaW(b) + b.pad[2] + b.pad[4] + (IF b.border THEN 2 ELSE 0)
           l == Spaces(b.pad[4] + (IF b.border THEN 1 ELSE 0))  r == Spaces(b.pad[2] + (IF b.border THEN 1 ELSE 0))
           inner == Rep(Spaces(wide), b.pad[1]) \o [k \in 1..Len(ar) |-> l \o ar[k] \o r] \o Rep(Spaces(wide), b.pad[3])
           ruled == IF ~b.border THEN inner
                    ELSE << <<Ch(9484)>> \o Rep(Ch(9472), wide) \o <<Ch(9488)>> >>
                         \o [k \in 1..Len(inner) |-> <<Ch(9474)>> \o inner[k] \o <<Ch(9474)>>]
                         \o << <<Ch(9492)>> \o Rep(Ch(9472), wide) \o <<Ch(9496)>> >>
           all == wide + (IF b.border THEN 2 ELSE 0) + b.mar[2] + b.mar[4]
           rows == Rep(Spaces(all), b.mar[1]) \o [k \in 1..Len(ruled) |-> Spaces(b.mar[4]) \o ruled[k] \o Spaces(b.mar[2])] \o Rep(Spaces(all), b.mar[3])
       IN IF rows = <<>> THEN << <<>> >> ELSE rows
\* a rectangle which keeps to the constraints, as far as its frame allows, with the content complete if there is room
Rectangle(b) ==
  LET d == Draw(b) IN
  Bare(b) \/
  (/\ \A k \in 1..Len(d) : TW(d[k]) = TW(d[1])
   /\ (b.size.w >= FrameW(b) \/ b.size.w < 0) /\ (b.size.maxw >= FrameW(b) \/ b.size.maxw < 0) => TW(d[1]) = ConstrainW(b.size, Wide(b.c) + FrameW(b)) \/ d = << <<>> >>
   /\ (b.size.h >= MaxOf(1, FrameH(b)) \/ b.size.h < 0) /\ (b.size.maxh >= MaxOf(1, FrameH(b)) \/ b.size.maxh < 0) => Len(d) = ConstrainH(b.size, Len(b.c) + FrameH(b))
   /\ (AreaW(b) >= Wide(b.c) /\ AreaH(b) >= Len(b.c)) =>
        \E y \in 0..(Len(d) - Len(b.c)) : \E x \in 0..(Len(d[1]) - 1) :
           \A k \in 1..Len(b.c) : x + Len(b.c[k]) <= Len(d[y + k]) /\ SubSeq(d[y + k], x + 1, x + Len(b.c[k])) = b.c[k])

\* where the box goes in a parent: measured with a line to spare inside a border, above and below
Place(b, w, h) == <<Offset(b.ha, ConstrainW(b.size, Wide(b.c) + FrameW(b)), w),
                    Offset(b.va, ConstrainH(b.size, Len(b.c) + FrameH(b) + (IF b.border THEN 2 ELSE 0)), h)>>
============================================================================

------------------------------- MODULE Style -------------------------------
(* Styles: what the fluent setters make of a style, and the box - cells with their attributes - that
   rendering a text with it gives.                                                                   *)
EXTENDS Palette

Hues == << <<255,0,0>>, <<0,0,255>>, <<95,135,215>>, <<18,18,18>>, <<255,255,0>>, <<175,0,95>>, <<88,88,88>>, <<3,200,77>>, <<128,0,128>> >>
RECURSIVE Str(_)
Str(ps) == IF Len(ps) = 1 THEN ToString(ps[1]) ELSE ToString(ps[1]) \o ";" \o Str(Tail(ps))
\* the sequence parameters of hue h as text ("" if there are none)
Code(h, cap, fg) == IF h = 0 THEN "" ELSE LET p == CHOOSE x \in Params(Hues[h], cap, fg) : TRUE IN IF p = <<>> THEN "" ELSE Str(p)

R(cp) == 9000 + cp
\* top, bottom, left, right, corners: top left, top right, bottom left, bottom right
Border(b) ==
  CASE b = "normal"  -> <<R(9472), R(9472), R(9474), R(9474), R(9484), R(9488), R(9492), R(9496)>>
    [] b = "rounded" -> <<R(9472), R(9472), R(9474), R(9474), R(9581), R(9582), R(9584), R(9583)>>
    [] b = "thick"   -> <<R(9473), R(9473), R(9475), R(9475), R(9487), R(9491), R(9495), R(9499)>>
    [] b = "double"  -> <<R(9552), R(9552), R(9553), R(9553), R(9556), R(9559), R(9562), R(9565)>>
    [] b = "ascii"   -> <<1045, 1045, 1124, 1124, 1043, 1043, 1043, 1043>>
    [] b = "own"     -> <<1116, 1098, 1108, 1114, 1049, 1050, 1051, 1052>>
    [] b = "hidden"  -> <<>>

None4 == <<-1, 0, 0, 0>>  \* not set
Init0(cfg) ==
  [content |-> cfg.content, cap |-> "true", fg |-> 0, bg |-> 0, bc |-> 0, border |-> "",
   top |-> FALSE, bottom |-> FALSE, left |-> FALSE, right |-> FALSE, pad |-> None4, mar |-> None4,
   w |-> -1, h |-> -1, minw |-> -1, maxw |-> -1, minh |-> -1, maxh |-> -1, ha |-> "", va |-> "",
   bold |-> FALSE, italic |-> FALSE, underline |-> FALSE, strike |-> FALSE, full |-> cfg.prop = "S02"]

P(x) == MaxOf(x, 0)
Four(q) == <<P(q[1]), P(q[2]), P(q[3]), P(q[4])>>
Was(q) == IF q = None4 THEN <<0, 0, 0, 0>> ELSE q
Spaced(q, op) ==
  CASE op.side = "top"    -> [Was(q) EXCEPT ![1] = P(op.n)]
    [] op.side = "right"  -> [Was(q) EXCEPT ![2] = P(op.n)]
    [] op.side = "bottom" -> [Was(q) EXCEPT ![3] = P(op.n)]
    [] op.side = "left"   -> [Was(q) EXCEPT ![4] = P(op.n)]
    [] op.side = "all"    -> <<P(op.n), P(op.n), P(op.n), P(op.n)>>
    [] op.side = "vert"   -> [Was(q) EXCEPT ![1] = P(op.n), ![3] = P(op.n)]
    [] op.side = "horz"   -> [Was(q) EXCEPT ![2] = P(op.n), ![4] = P(op.n)]
    [] op.side = "given"  -> Four(op.q)
Apply(s, op) ==
  CASE op.k = "content" -> [s EXCEPT !.content = op.c]
    [] op.k = "cap" -> [s EXCEPT !.cap = op.v]
    [] op.k = "fg" -> [s EXCEPT !.fg = op.n]
    [] op.k = "bg" -> [s EXCEPT !.bg = op.n]
    [] op.k = "bc" -> [s EXCEPT !.bc = op.n]
    [] op.k = "border" -> IF s.top \/ s.bottom \/ s.left \/ s.right THEN [s EXCEPT !.border = op.v]
                          ELSE [s EXCEPT !.border = op.v, !.top = TRUE, !.bottom = TRUE, !.left = TRUE, !.right = TRUE]
    [] op.k = "side" -> [s EXCEPT ![op.v] = op.on]
    [] op.k = "pad" -> [s EXCEPT !.pad = Spaced(s.pad, op)]
    [] op.k = "mar" -> [s EXCEPT !.mar = Spaced(s.mar, op)]
    [] op.k = "size" -> [s EXCEPT ![op.v] = P(op.n)]
    [] op.k = "align" -> [s EXCEPT !.ha = op.h, !.va = op.v]
    [] op.k = "alignh" -> [s EXCEPT !.ha = op.h, !.va = IF @ = "" THEN "top" ELSE @]
    [] op.k = "alignv" -> [s EXCEPT !.va = op.v, !.ha = IF @ = "" THEN "left" ELSE @]
    [] op.k = "deco" -> [s EXCEPT ![op.v] = op.on]

(* ---- geometry *)
Wide(ls) == MaxSeq([k \in 1..Len(ls) |-> TW(ls[k])], 0)
AlignH(l, w, a) ==
  LET t == CutTo(l, w)
      n == w - TW(t)
      m == IF a = "right" THEN n ELSE IF a = "center" THEN (n + 1) \div 2 ELSE 0
  IN Spaces(m) \o t \o Spaces(n - m)
AlignV(ls, h, a) ==
  LET n == h - Len(ls)
      m == IF a = "bottom" THEN n ELSE IF a = "middle" THEN (n + 1) \div 2 ELSE 0
      blank == Spaces(Wide(ls))
  IN IF n <= 0 THEN Take(ls, h) ELSE Rep(blank, m) \o ls \o Rep(blank, n - m)
Aligned(s) ==
  LET a == IF s.w > 0 THEN [k \in 1..Len(s.content) |-> AlignH(s.content[k], s.w, s.ha)] ELSE s.content
  IN IF s.h > 0 THEN AlignV(a, s.h, s.va) ELSE a
Rect(ls) == LET w == Wide(ls) IN [k \in 1..Len(ls) |-> PadTo(ls[k], w)]

Side(s, x) == s[x] /\ s.border \notin {"", "hidden"}
N1(b) == IF b THEN 1 ELSE 0
Natural(s) ==
  LET p == Was(s.pad)  m == Was(s.mar)
  IN [w |-> Wide(s.content) + p[2] + p[4] + N1(Side(s, "left")) + N1(Side(s, "right")) + m[2] + m[4],
      h |-> Len(s.content) + p[1] + p[3] + N1(Side(s, "top")) + N1(Side(s, "bottom")) + m[1] + m[3]]
Limits(s) == LET n == Natural(s) IN
  /\ (s.minw >= 0 => n.w >= s.minw) /\ (s.maxw >= 0 => n.w <= s.maxw)
  /\ (s.minh >= 0 => n.h >= s.minh) /\ (s.maxh >= 0 => n.h <= s.maxh)
Refused(s) == (s.border = "" /\ (s.top \/ s.bottom \/ s.left \/ s.right)) \/ ~Limits(s)

\* A row is a sequence of cells <<what it shows, is it border?>>
Cells(l, b) == [k \in 1..Len(l) |-> <<l[k], b>>]
Around(rows, q) ==   \* q: top, right, bottom, left
  IF rows = << <<>> >> \/ q = None4 THEN rows
  ELSE LET RW(r) == FoldLeft(LAMBDA n, c : n + W(c[1]), 0, r)
           w == MaxSeq([k \in 1..Len(rows) |-> RW(rows[k])], 0)
           blank == Cells(Spaces(q[4] + w + q[2]), FALSE)
       IN Rep(blank, q[1])
          \o [k \in 1..Len(rows) |-> Cells(Spaces(q[4]), FALSE) \o rows[k] \o Cells(Spaces((w - RW(rows[k])) + q[2]), FALSE)]
          \o Rep(blank, q[3])
Bordered(s, ls) ==
  IF ~(Side(s, "top") \/ Side(s, "bottom") \/ Side(s, "left") \/ Side(s, "right"))
  THEN [k \in 1..Len(ls) |-> Cells(ls[k], FALSE)]
  ELSE LET b == Border(s.border)
           w == Wide(ls)
           Opt(c, x) == IF c THEN << <<x, TRUE>> >> ELSE <<>>
           L == Side(s, "left")  RR == Side(s, "right")
           Edge(e, a, z) == Opt(L, a) \o Rep(<<e, TRUE>>, w) \o Opt(RR, z)
       IN (IF Side(s, "top") THEN <<Edge(b[1], b[5], b[6])>> ELSE <<>>)
          \o [k \in 1..Len(ls) |-> Opt(L, b[3]) \o Cells(PadTo(ls[k], w), FALSE) \o Opt(RR, b[4])]
          \o (IF Side(s, "bottom") THEN <<Edge(b[2], b[7], b[8])>> ELSE <<>>)
Box(s) ==
  LET a == Aligned(s)
      p == Around([k \in 1..Len(a) |-> Cells(a[k], FALSE)], s.pad)
      b == Bordered(s, [k \in 1..Len(p) |-> [j \in 1..Len(p[k]) |-> p[k][j][1]]])
  IN Around(b, s.mar)

(* ---- attributes *)
Deco(s) == (IF s.bold THEN "b" ELSE "") \o (IF s.italic THEN "i" ELSE "") \o (IF s.underline THEN "u" ELSE "") \o (IF s.strike THEN "s" ELSE "")
Attr(s, fg) == fg \o "|" \o Code(s.bg, s.cap, FALSE) \o "|" \o Deco(s)
Plain == "||"
Shown(s) == IF Refused(s) THEN [k \in 1..Len(s.content) |-> Cells(s.content[k], FALSE)] ELSE Box(s)
Obs(s) ==
  LET rows == Shown(s)
      txt == [k \in 1..Len(rows) |-> [j \in 1..Len(rows[k]) |-> rows[k][j][1]]]
      base == Attr(s, Code(s.fg, s.cap, TRUE))
      bfg == Code(s.bc, s.cap, TRUE)
      edge == IF bfg = "" THEN base ELSE Attr(s, bfg)
  IN IF ~s.full THEN [t |-> txt, same |-> TRUE]
     ELSE [t |-> txt, same |-> TRUE, end |-> Plain,
           a |-> [k \in 1..Len(rows) |-> [j \in 1..Len(rows[k]) |-> IF Refused(s) THEN Plain ELSE IF rows[k][j][2] THEN edge ELSE base]]]

(* ---- the geometry asked for *)
Inv(s) ==
  Refused(s) \/
  LET b == Box(s)
      Row(k) == FoldLeft(LAMBDA n, c : n + W(c[1]), 0, b[k])
      p == Was(s.pad)  m == Was(s.mar)
      framed == \E x \in {"top", "bottom", "left", "right"} : Side(s, x)
      cw == IF s.w > 0 THEN s.w ELSE Wide(s.content)
      ch == IF s.h > 0 THEN s.h ELSE Len(s.content)
      empty == Aligned(s) = << <<>> >>   \* nothing at all: no padding, and without a border no margin
      ew == IF empty THEN 0 ELSE cw + p[2] + p[4]
      eh == IF empty THEN 1 ELSE ch + p[1] + p[3]
      hm == IF empty /\ ~framed THEN 0 ELSE m[2] + m[4]
      vm == IF empty /\ ~framed THEN 0 ELSE m[1] + m[3]
  IN /\ ((s.w > 0 \/ s.pad # None4 \/ framed \/ s.mar # None4) /\ b # << <<>> >>) => \A k \in 1..Len(b) : Row(k) = ew + hm + N1(Side(s, "left")) + N1(Side(s, "right"))
     /\ Len(b) = eh + vm + N1(Side(s, "top")) + N1(Side(s, "bottom"))
     \* content that fits is all there, in order
     /\ (s.w <= 0 \/ Wide(s.content) <= s.w) /\ (s.h <= 0 \/ Len(s.content) <= s.h) =>
          LET seen == Cat([k \in 1..Len(b) |-> [j \in 1..Len(b[k]) |-> b[k][j]]])
          IN SelectSeq([k \in 1..Len(seen) |-> IF seen[k][2] THEN SP ELSE seen[k][1]], LAMBDA c : c # SP)
             = SelectSeq(Cat(s.content), LAMBDA c : c # SP)
StepOk(s, op, s2) == s2.full = s.full

Lines == { << <<>> >>, << <<1097>> >>, << <<1097, 1098, 1099>>, <<2001>> >>, << <<>>, <<1202, 2004, 1098>>, <<1097>> >> }
Cfgs == {[content |-> l, prop |-> "S01"] : l \in Lines}
Cfgs2 == {[content |-> l, prop |-> "S02"] : l \in {<< <<1097, 1098>> >>, << <<2001>>, <<1097, 1098, 1099>> >>}}
Ops(s) ==
  {[k |-> "border", v |-> b] : b \in {"own", "hidden"}} \cup {[k |-> "side", v |-> x, on |-> ~s[x]] : x \in {"top", "left", "right"}}
  \cup {[k |-> x, side |-> y, n |-> 1] : x \in {"pad", "mar"}, y \in {"left", "vert", "all"}}
  \cup {[k |-> "size", v |-> "w", n |-> n] : n \in {2, 5}} \cup {[k |-> "size", v |-> "h", n |-> n] : n \in {1, 4}} \cup {[k |-> "size", v |-> "maxw", n |-> 6]}
  \cup {[k |-> "alignh", h |-> "center"], [k |-> "align", h |-> "right", v |-> "middle"], [k |-> "alignv", v |-> "bottom"]}
Ops2(s) ==
  {[k |-> x, n |-> n] : x \in {"fg", "bg", "bc"}, n \in {1, 3}} \cup {[k |-> "cap", v |-> x] : x \in Caps}
  \cup {[k |-> "border", v |-> "own"], [k |-> "side", v |-> "right", on |-> ~s.right], [k |-> "side", v |-> "top", on |-> ~s.top], [k |-> "mar", side |-> "all", n |-> 1], [k |-> "pad", side |-> "left", n |-> 1]}
  \cup {[k |-> "deco", v |-> x, on |-> ~s[x]] : x \in {"bold", "underline", "italic", "strike"}}
============================================================================

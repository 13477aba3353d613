-------------------------------- MODULE Term --------------------------------
(* A terminal emulator: what a terminal (xterm / DEC VT behaviour, with pending wrap and background
   colour erase) shows after the bytes it has received.  Bytes arrive as tokens:
     [t |-> "p",   a |-> atoms]                  printable characters
     [t |-> "c",   n |-> code]                   control character
     [t |-> "csi", f |-> final, q |-> "" / "?",  p |-> parameters (-1: omitted)]
     [t |-> "esc", f |-> final]
     [t |-> "osc", ...]                          no effect on the screen
   Cells are <<atom, sgr>>, the right half of a wide character is <<0, sgr>>;
   sgr = <<fg, bg, attributes>> with -1 = default colour, 0..255 = palette, 1000000+rgb = true colour. *)
EXTENDS Base

Sgr0 == <<-1, -1, {}>>
BlankOn(sgr) == <<SP, <<-1, sgr[2], {}>>>>       \* erased with the current background
Blank == <<SP, Sgr0>>
BlankRow(w, sgr) == [k \in 1..w |-> BlankOn(sgr)]

TermNew(w, h) ==
  [w |-> w, h |-> h, rows |-> [r \in 1..h |-> BlankRow(w, Sgr0)], x |-> 1, y |-> 1, pend |-> FALSE,
   sgr |-> Sgr0, vis |-> TRUE, alt |-> FALSE, main |-> <<>>, msave |-> <<1, 1, Sgr0>>, save |-> <<1, 1, Sgr0>>,
   scrolled |-> 0, modes |-> {}, err |-> 0]

\* ---------------------------------------------------------------- rows
ScrollUp1(t) == [t EXCEPT !.rows = Append(Tail(t.rows), BlankRow(t.w, t.sgr)), !.scrolled = @ + 1]
LineFeed(t) == IF t.y = t.h THEN [ScrollUp1(t) EXCEPT !.pend = FALSE] ELSE [t EXCEPT !.y = @ + 1, !.pend = FALSE]

\* overwriting one half of a wide character blanks the other half
Unpair(row, x) ==
  LET n == Len(row)
      r1 == IF x > 1 /\ row[x][1] = 0 THEN [row EXCEPT ![x - 1] = <<SP, @[2]>>] ELSE row
  IN IF x < n /\ W(row[x][1]) = 2 /\ row[x][1] # 0 THEN [r1 EXCEPT ![x + 1] = <<SP, @[2]>>] ELSE r1

PutAt(row, x, a, sgr) ==
  IF W(a) = 2
  THEN [Unpair(Unpair(row, x), x + 1) EXCEPT ![x] = <<a, sgr>>, ![x + 1] = <<0, sgr>>]
  ELSE [Unpair(row, x) EXCEPT ![x] = <<a, sgr>>]

PutAtom(t, a) ==
  IF W(a) = 0 THEN t
  ELSE IF W(a) > t.w THEN t
  ELSE LET t1 == IF t.pend \/ t.x + W(a) - 1 > t.w THEN [LineFeed(t) EXCEPT !.x = 1] ELSE t
           nx == t1.x + W(a)
       IN [t1 EXCEPT !.rows[t1.y] = PutAt(@, t1.x, a, t1.sgr),
                     !.x = MinOf(nx, t1.w), !.pend = nx > t1.w]

\* ---------------------------------------------------------------- erasing
EraseCells(row, a, b, sgr) ==
  LET r1 == IF a >= 1 /\ a <= Len(row) THEN Unpair(row, a) ELSE row
      r2 == IF b >= 1 /\ b <= Len(row) THEN Unpair(r1, b) ELSE r1
  IN [k \in 1..Len(row) |-> IF k >= a /\ k <= b THEN BlankOn(sgr) ELSE r2[k]]
EL(t, n) ==
  LET row == t.rows[t.y]
      row2 == CASE n = 0 -> EraseCells(row, t.x, t.w, t.sgr)
                [] n = 1 -> EraseCells(row, 1, t.x, t.sgr)
                [] OTHER -> BlankRow(t.w, t.sgr)
  IN [t EXCEPT !.rows[t.y] = row2, !.pend = FALSE]
ED(t, n) ==
  CASE n = 0 -> LET u == EL(t, 0) IN [u EXCEPT !.rows = [r \in 1..t.h |-> IF r > t.y THEN BlankRow(t.w, t.sgr) ELSE u.rows[r]]]
    [] n = 1 -> LET u == EL(t, 1) IN [u EXCEPT !.rows = [r \in 1..t.h |-> IF r < t.y THEN BlankRow(t.w, t.sgr) ELSE u.rows[r]]]
    [] n = 2 -> [t EXCEPT !.rows = [r \in 1..t.h |-> BlankRow(t.w, t.sgr)], !.pend = FALSE]
    [] OTHER -> t                                  \* 3: scrollback only

\* ---------------------------------------------------------------- SGR
RECURSIVE SgrApply(_, _)
SgrApply(s, p) ==
  IF p = <<>> THEN s
  ELSE LET c == IF p[1] = -1 THEN 0 ELSE p[1]
           more == Tail(p)
       IN CASE c = 0 -> SgrApply(Sgr0, more)
            [] c \in {1, 2, 3, 4, 5, 7, 8, 9} -> SgrApply(<<s[1], s[2], s[3] \cup {c}>>, more)
            [] c = 22 -> SgrApply(<<s[1], s[2], s[3] \ {1, 2}>>, more)
            [] c \in {23, 24, 25, 27, 28, 29} -> SgrApply(<<s[1], s[2], s[3] \ {c - 20}>>, more)
            [] c \in 30..37 -> SgrApply(<<c - 30, s[2], s[3]>>, more)
            [] c \in 90..97 -> SgrApply(<<c - 82, s[2], s[3]>>, more)
            [] c = 39 -> SgrApply(<<-1, s[2], s[3]>>, more)
            [] c \in 40..47 -> SgrApply(<<s[1], c - 40, s[3]>>, more)
            [] c \in 100..107 -> SgrApply(<<s[1], c - 92, s[3]>>, more)
            [] c = 49 -> SgrApply(<<s[1], -1, s[3]>>, more)
            [] c \in {38, 48} ->
                 LET col == IF Len(p) >= 3 /\ p[2] = 5 THEN p[3]
                            ELSE IF Len(p) >= 5 /\ p[2] = 2 THEN 1000000 + p[3] * 65536 + p[4] * 256 + p[5]
                            ELSE -1
                     used == IF Len(p) >= 3 /\ p[2] = 5 THEN 3 ELSE 5
                 IN SgrApply(IF c = 38 THEN <<col, s[2], s[3]>> ELSE <<s[1], col, s[3]>>, Drop(p, used))
            [] OTHER -> SgrApply(s, more)

\* ---------------------------------------------------------------- CSI
Par(p, k, d) == IF Len(p) < k \/ p[k] = -1 THEN d ELSE p[k]
Par1(p, k) == MaxOf(Par(p, k, 1), 1)
Goto(t, x, y) == [t EXCEPT !.x = Clamp(x, 1, t.w), !.y = Clamp(y, 1, t.h), !.pend = FALSE]

PrivMode(t, n, on) ==
  CASE n = 25 -> [t EXCEPT !.vis = on]
    [] n = 1049 ->
        IF on /\ ~t.alt
        THEN [t EXCEPT !.alt = TRUE, !.main = t.rows, !.msave = <<t.x, t.y, t.sgr>>,
                       !.rows = [r \in 1..t.h |-> BlankRow(t.w, t.sgr)], !.pend = FALSE]
        ELSE IF ~on /\ t.alt
        THEN [t EXCEPT !.alt = FALSE, !.rows = t.main, !.main = <<>>, !.x = t.msave[1], !.y = t.msave[2],
                       !.sgr = t.msave[3], !.pend = FALSE]
        ELSE t
    [] OTHER -> [t EXCEPT !.modes = IF on THEN @ \cup {n} ELSE @ \ {n}]

Csi(t, k) ==
  LET p == k.p IN
  IF k.q = "?" THEN
    CASE k.f = "h" -> FoldLeft(LAMBDA u, n : PrivMode(u, n, TRUE), t, p)
      [] k.f = "l" -> FoldLeft(LAMBDA u, n : PrivMode(u, n, FALSE), t, p)
      [] OTHER -> [t EXCEPT !.err = @ + 1]
  ELSE
    CASE k.f = "m" -> [t EXCEPT !.sgr = SgrApply(@, IF p = <<>> THEN <<0>> ELSE p)]
      [] k.f \in {"H", "f"} -> Goto(t, Par1(p, 2), Par1(p, 1))
      [] k.f = "A" -> Goto(t, t.x, t.y - Par1(p, 1))
      [] k.f = "B" -> Goto(t, t.x, t.y + Par1(p, 1))
      [] k.f = "C" -> Goto(t, t.x + Par1(p, 1), t.y)
      [] k.f = "D" -> Goto(t, t.x - Par1(p, 1), t.y)
      [] k.f = "E" -> Goto(t, 1, t.y + Par1(p, 1))
      [] k.f = "F" -> Goto(t, 1, t.y - Par1(p, 1))
      [] k.f = "G" -> Goto(t, Par1(p, 1), t.y)
      [] k.f = "d" -> Goto(t, t.x, Par1(p, 1))
      [] k.f = "J" -> ED(t, Par(p, 1, 0))
      [] k.f = "K" -> EL(t, Par(p, 1, 0))
      [] k.f = "s" -> [t EXCEPT !.save = <<t.x, t.y, t.sgr>>]
      [] k.f = "u" -> [Goto(t, t.save[1], t.save[2]) EXCEPT !.sgr = t.save[3]]
      [] OTHER -> [t EXCEPT !.err = @ + 1]

Ctl(t, n) ==
  CASE n = 10 -> LineFeed(t)
    [] n = 13 -> [t EXCEPT !.x = 1, !.pend = FALSE]
    [] n = 8 -> Goto(t, t.x - 1, t.y)
    [] n = 9 -> Goto(t, ((t.x - 1) \div 8 + 1) * 8 + 1, t.y)
    [] OTHER -> t

Tok(t, k) ==
  CASE k.t = "p" -> FoldLeft(PutAtom, t, k.a)
    [] k.t = "c" -> Ctl(t, k.n)
    [] k.t = "csi" -> Csi(t, k)
    [] k.t = "esc" -> (CASE k.f = "7" -> [t EXCEPT !.save = <<t.x, t.y, t.sgr>>]
                         [] k.f = "8" -> [Goto(t, t.save[1], t.save[2]) EXCEPT !.sgr = t.save[3]]
                         [] OTHER -> [t EXCEPT !.err = @ + 1])
    [] k.t = "osc" -> t
    [] OTHER -> [t EXCEPT !.err = @ + 1]

Feed(t, toks) == FoldLeft(Tok, t, toks)

\* ---------------------------------------------------------------- what a cell looks like
\* of a blank cell only background, underline, reverse and strike-through can be seen
Look(c) ==
  IF c[1] = SP
  THEN LET at == c[2][3] \cap {4, 7, 9} IN <<SP, <<IF at = {} THEN -1 ELSE c[2][1], c[2][2], at>>>>
  ELSE c
LookRow(row) == [k \in 1..Len(row) |-> Look(row[k])]
Look2(rows) == [r \in 1..Len(rows) |-> LookRow(rows[r])]
RowText(row) == SelectSeq([k \in 1..Len(row) |-> row[k][1]], LAMBDA a : a # 0)
RECURSIVE RTrim(_)
RTrim(txt) == IF txt = <<>> \/ txt[Len(txt)] # SP THEN txt ELSE RTrim(Front(txt))
=============================================================================

------------------------------ MODULE TextArea ------------------------------
(* A text editor: lines of code points, a cursor before some code point of some line, the text     *)
(* killed last, and a window of lines that follows the cursor. A movement validator may keep the    *)
(* cursor out of positions; observers hear of movements and of movements refused.                   *)
EXTENDS Base

LF == 10
Separators == {32, 9} \cup {46, 44, 59, 58, 33, 63, 40, 41, 91, 93, 123, 125, 47, 92, 124, 45, 95, 61, 43, 42,
                            38, 37, 36, 35, 64, 126, 96, 39, 34, 60, 62}

RECURSIVE Split(_)
Split(t) == IF \E k \in 1..Len(t) : t[k] = LF
            THEN LET k == CHOOSE x \in 1..Len(t) : t[x] = LF /\ \A y \in 1..(x - 1) : t[y] # LF
                 IN <<Take(t, k - 1)>> \o Split(Drop(t, k))
            ELSE <<t>>
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<LF>> \o Join(Tail(ls))

Init0(cfg) == [lines |-> <<<<>>>>, r |-> 0, c |-> 0, top |-> 0, h |-> cfg.h, maxl |-> cfg.maxl, maxc |-> cfg.maxc,
               ph |-> <<>>, ro |-> FALSE, nums |-> FALSE, show |-> TRUE, vi |-> FALSE, kill |-> <<>>, v |-> "any", log |-> <<>>]

Line(s, r) == s.lines[r + 1]
Cur(s) == Line(s, s.r)
LastRow(s) == Len(s.lines) - 1
\* the window follows the cursor, no further than it must
Follow(s) == LET h == MaxOf(s.h, 1) IN
  [s EXCEPT !.top = IF s.r < @ THEN s.r ELSE IF s.r >= @ + h THEN s.r - h + 1 ELSE @]
Put(s, r, c) == Follow([s EXCEPT !.r = r, !.c = c])
Clamped(s, r, c) == LET r2 == Clamp(r, 0, LastRow(s)) IN Put(s, r2, Clamp(c, 0, Len(Line(s, r2))))

\* what the movement validators used in the checks accept
Ok(s, r, c) == CASE s.v = "any" -> TRUE
                 [] s.v = "never" -> FALSE
                 [] s.v = "prompt" -> r # 0 \/ c >= 2
                 [] s.v = "rows" -> r \in 0..1
                 [] s.v = "even" -> (c % 2) = 0
                 [] s.v = "row" -> r = s.r
Moved(s, r, c) == [Put(s, r, c) EXCEPT !.log = Append(@, <<1, s.r, s.c, r, c>>)]
Hit(s, r, c) == [s EXCEPT !.log = Append(@, <<2, r, c>>)]
Move(s, r, c) == IF r = s.r /\ c = s.c THEN s
                 ELSE IF Ok(s, r, c) THEN Moved(s, r, c) ELSE Hit(s, r, c)

------------------------------------------------------------------------------
\* movements
Left(s) == IF s.c > 0 THEN Move(s, s.r, s.c - 1)
           ELSE IF s.r > 0 THEN Move(s, s.r - 1, Len(Line(s, s.r - 1))) ELSE s
Right(s) == IF s.c < Len(Cur(s)) THEN Move(s, s.r, s.c + 1)
            ELSE IF s.r < LastRow(s) THEN Move(s, s.r + 1, 0) ELSE s
\* moving beyond the first or last line is reported only when a validator refuses that position
Vertical(s, d) == LET r == s.r + d IN
  IF r \in 0..LastRow(s) THEN Move(s, r, MinOf(s.c, Len(Line(s, r))))
  ELSE IF Ok(s, r, s.c) THEN s ELSE Hit(s, r, s.c)
\* the first position of the line that is allowed
LineStart(s) == LET cs == {c \in 0..Len(Cur(s)) : Ok(s, s.r, c)} IN
  IF cs = {} THEN Hit(s, s.r, 0) ELSE Move(s, s.r, Min(cs))

Sep(line, k) == line[k] \in Separators
RECURSIVE Ahead(_, _, _)
Ahead(line, c, sep) == IF c < Len(line) /\ Sep(line, c + 1) = sep THEN Ahead(line, c + 1, sep) ELSE c
RECURSIVE Behind(_, _, _)
Behind(line, c, sep) == IF c > 0 /\ Sep(line, c) = sep THEN Behind(line, c - 1, sep) ELSE c
WordEnd(s) == Ahead(Cur(s), s.c, FALSE)
NextWord(s) == Ahead(Cur(s), WordEnd(s), TRUE)
PrevWord(s) == Behind(Cur(s), Behind(Cur(s), s.c, TRUE), FALSE)

------------------------------------------------------------------------------
\* edits: replace what lies between two positions of the text by other text
Text(s) == Join(s.lines)
Offset(s) == Len(Join(Take(s.lines, s.r) \o <<Take(Cur(s), s.c)>>))
\* place the cursor behind the first n code points of text t
Retext(s, t, n) == LET b == Split(Take(t, n)) IN
  Put([s EXCEPT !.lines = Split(t)], Len(b) - 1, Len(b[Len(b)]))
Cut(s, from, to) == Retext(s, Take(Text(s), from) \o Drop(Text(s), to), from)
Killed(s, from, to) == [Cut(s, from, to) EXCEPT !.kill = SubSeq(Text(s), from + 1, to)]

Full(s) == s.maxc > 0 /\ Len(Text(s)) >= s.maxc
FullLines(s) == s.maxl > 0 /\ Len(s.lines) >= s.maxl
Insert(s, x) == IF Full(s) \/ (x = LF /\ FullLines(s)) THEN s
                ELSE LET o == Offset(s) IN Retext(s, Take(Text(s), o) \o <<x>> \o Drop(Text(s), o), o + 1)
\* as much of a text as the limits allow
RECURSIVE InsertAll(_, _)
InsertAll(s, t) == IF t = <<>> THEN s
                   ELSE IF Full(s) \/ (t[1] = LF /\ FullLines(s)) THEN s
                   ELSE InsertAll(Insert(s, t[1]), Tail(t))
Backspace(s) == IF s.r = 0 /\ s.c = 0 THEN s
                ELSE LET r == IF s.c > 0 THEN s.r ELSE s.r - 1
                         c == IF s.c > 0 THEN s.c - 1 ELSE Len(Line(s, s.r - 1))
                     IN IF Ok(s, r, c) THEN Cut(s, Offset(s) - 1, Offset(s)) ELSE Hit(s, r, c)
AtEnd(s) == s.r = LastRow(s) /\ s.c = Len(Cur(s))
Delete(s) == IF AtEnd(s) THEN s ELSE Cut(s, Offset(s), Offset(s) + 1)
\* to the end of the line, or at its end the line break
KillLine(s) == IF AtEnd(s) THEN s
               ELSE Killed(s, Offset(s), Offset(s) + MaxOf(Len(Cur(s)) - s.c, 1))
KillWord(s) == IF WordEnd(s) = s.c THEN s ELSE Killed(s, Offset(s), Offset(s) + WordEnd(s) - s.c)
KillTo(s, c) == Killed(s, Offset(s) - (s.c - c), Offset(s))
KillBack(s) == IF s.c = 0 THEN s
               ELSE IF Ok(s, s.r, PrevWord(s)) THEN KillTo(s, PrevWord(s)) ELSE Hit(s, s.r, PrevWord(s))
KillStart(s) == IF s.c = 0 THEN s
                ELSE LET cs == {c \in 0..(s.c - 1) : Ok(s, s.r, c)}
                     IN IF cs = {} THEN Hit(s, s.r, 0) ELSE KillTo(s, Min(cs))

Edit(s, op) ==
  CASE op.key \in {"backspace", "ctrl+h", "ctrl+H"} -> Backspace(s)
    [] op.key \in {"delete", "ctrl+d"} -> Delete(s)
    [] op.key \in {"enter", "ctrl+m"} -> Insert(s, LF)
    [] op.key = "space" -> Insert(s, 32)
    [] op.key = "rune" -> Insert(s, op.cp)
    [] op.key \in {"ctrl+k", "ctrl+K"} -> KillLine(s)
    [] op.key \in {"ctrl+u", "ctrl+U"} -> KillStart(s)
    [] op.key \in {"ctrl+w", "alt+backspace"} -> KillBack(s)
    [] op.key \in {"alt+d", "alt+D"} -> KillWord(s)
    [] op.key \in {"ctrl+y", "ctrl+Y"} -> InsertAll(s, s.kill)
    [] OTHER -> s
KeyAct(s, op) ==
  CASE op.key \in {"left", "ctrl+b"} -> Left(s)
    [] op.key \in {"right", "ctrl+f"} -> Right(s)
    [] op.key \in {"up", "ctrl+p"} -> Vertical(s, -1)
    [] op.key \in {"down", "ctrl+n", "ctrl+N"} -> Vertical(s, 1)
    [] op.key \in {"home", "ctrl+a", "ctrl+A"} -> LineStart(s)
    [] op.key \in {"end", "ctrl+e"} -> Move(s, s.r, Len(Cur(s)))
    [] op.key = "alt+<" -> Move(s, 0, 0)
    [] op.key = "alt+>" -> Move(s, LastRow(s), Len(Line(s, LastRow(s))))
    [] op.key \in {"alt+f", "alt+F"} -> Move(s, s.r, NextWord(s))
    [] op.key \in {"alt+b", "alt+B"} -> Move(s, s.r, PrevWord(s))
    [] OTHER -> IF s.ro THEN s ELSE Edit(s, op)

Apply0(s, op) ==
  CASE op.k = "key" -> IF s.vi THEN s ELSE KeyAct(s, op)
    [] op.k = "set" -> Put([s EXCEPT !.lines = Split(op.t)], 0, 0)
    [] op.k = "goto" -> Clamped(s, op.r, op.c)
    [] op.k = "end" -> Put(s, LastRow(s), Len(Line(s, LastRow(s))))
    [] op.k = "height" -> Follow([s EXCEPT !.h = op.n])
    [] op.k = "maxl" -> [s EXCEPT !.maxl = op.n]
    [] op.k = "maxc" -> [s EXCEPT !.maxc = op.n]
    [] op.k = "placeholder" -> [s EXCEPT !.ph = op.t]
    [] op.k = "ro" -> [s EXCEPT !.ro = op.on]
    [] op.k = "nums" -> [s EXCEPT !.nums = op.on]
    [] op.k = "show" -> [s EXCEPT !.show = op.on]
    [] op.k = "vi" -> [s EXCEPT !.vi = op.on]
    [] op.k = "valid" -> [s EXCEPT !.v = op.v]
    [] OTHER -> s
Apply(s, op) == Apply0([s EXCEPT !.log = <<>>], op)

------------------------------------------------------------------------------
Digits(n) == LET d(k) == 48 + ((n \div k) % 10) IN
  IF n < 10 THEN <<32, 32, 32, d(1)>> ELSE IF n < 100 THEN <<32, 32, d(10), d(1)>> ELSE <<32, d(100), d(10), d(1)>>
\* a shown line; -1 .. -2 is the cursor
Row(s, r) ==
  LET l == Line(s, r)
      at == IF s.c < Len(l) THEN <<l[s.c + 1]>> ELSE <<32>>
  IN (IF s.nums THEN Digits(r + 1) \o <<32>> ELSE <<>>) \o
     (IF r = s.r /\ s.show THEN Take(l, s.c) \o <<-1>> \o at \o <<-2>> \o Drop(l, s.c + 1) ELSE l)
IsEmpty(s) == s.lines = <<<<>>>>
View(s) == IF IsEmpty(s) THEN s.ph
           ELSE LET n == MinOf(MaxOf(s.h, 0), MaxOf(Len(s.lines) - s.top, 0))
                IN IF n = 0 THEN <<>> ELSE Join([k \in 1..n |-> Row(s, s.top + k - 1)])
Obs(s) == [lines |-> s.lines, text |-> Text(s), r |-> s.r, c |-> s.c, line |-> Cur(s), empty |-> IsEmpty(s),
           before |-> Take(Cur(s), s.c), at |-> IF s.c < Len(Cur(s)) THEN <<Cur(s)[s.c + 1]>> ELSE <<32>>,
           after |-> Drop(Cur(s), s.c + 1), view |-> View(s), log |-> s.log, frozen |-> TRUE]

Inv(s) == /\ s.r \in 0..LastRow(s) /\ s.c \in 0..Len(Cur(s))
          /\ (s.h > 0 => s.r \in s.top..(s.top + s.h - 1))
          /\ Split(Text(s)) = s.lines
\* user edits never exceed a limit, killed text comes back unchanged, and read-only text stays
StepOk(s, op, s2) ==
  op.k = "key" =>
    /\ (s.maxc > 0 /\ Len(Text(s2)) > s.maxc) => Len(Text(s2)) <= Len(Text(s))
    /\ (s.maxl > 0 /\ Len(s2.lines) > s.maxl) => Len(s2.lines) <= Len(s.lines)
    /\ (s2.kill # s.kill /\ s2.maxc = 0 /\ s2.maxl = 0) => Text(InsertAll(s2, s2.kill)) = Text(s)
    /\ s.ro => Text(s2) = Text(s)
    /\ (s2.r # s.r \/ s2.c # s.c) /\ Text(s2) = Text(s) => Ok(s, s2.r, s2.c)

K(x) == [k |-> "key", key |-> x]
Ops(s) == {[k |-> "key", key |-> "rune", cp |-> 97], K("space"), K("enter"), K("backspace"), K("delete"), K("left"), K("up"), K("down"), K("end"), K("home"),
           K("ctrl+k"), K("ctrl+u"), K("ctrl+w"), K("ctrl+y"), K("alt+b"), K("alt+f"), K("alt+d")}
          \cup {[k |-> "set", t |-> <<97, 98, 32, 99, 10, 10, 26085, 46, 98>>], [k |-> "end"], [k |-> "valid", v |-> "prompt"], [k |-> "height", n |-> 1]}
Cfgs == [h : {2, 3}, maxl : {0, 3}, maxc : {0, 10}]
==============================================================================

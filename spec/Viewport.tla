------------------------------ MODULE Viewport ------------------------------
(* A scrollable viewport over lines of text: offset, follow mode, keys, wheel and drag scrolling.  *)
EXTENDS Base

Total(s) == Len(s.content)
MaxOff(s) == MaxOf(Total(s) - s.h, 0)
SetOff(s, o) == [s EXCEPT !.off = Clamp(o, 0, MaxOff(s))]
AtBottom(s) == s.off >= MaxOff(s)

Init0(cfg) ==
  LET s0 == [content |-> cfg.lines, w |-> MaxOf(cfg.w, 0), h |-> MaxOf(cfg.h, 0), off |-> 0,
             follow |-> FALSE, wrap |-> cfg.wrap, mouse |-> cfg.mouse, lps |-> 3,
             drag |-> FALSE, dy |-> 0, sy |-> 0,
             \* strict: what the documentation asks of wrapped viewports (see known_findings.txt)
             strict |-> IF Has(cfg, "strict") THEN cfg.strict ELSE FALSE]
  IN s0

\* scrolling by hand leaves follow mode, scrolling down to the end re-enters it
Up(s, n)   == [SetOff(s, s.off - n) EXCEPT !.follow = FALSE]
Down(s, n) == LET s2 == SetOff(s, s.off + n) IN [s2 EXCEPT !.follow = s.follow \/ AtBottom(s2)]
ToTop(s)    == [s EXCEPT !.off = 0, !.follow = FALSE]
ToBottom(s) == [s EXCEPT !.off = MaxOff(s), !.follow = TRUE]
Goto(s, o)  == [SetOff(s, o) EXCEPT !.follow = FALSE]
\* whatever changes the content or the size re-establishes the offset bounds, and follow mode sticks
Refit(s) == IF s.follow THEN [s EXCEPT !.off = MaxOff(s)] ELSE SetOff(s, s.off)

KeyAct(s, k) ==
  CASE k \in {"up", "k"} -> Up(s, 1)
    [] k \in {"down", "j"} -> Down(s, 1)
    [] k \in {"pgup", "b", "ctrl+b"} -> Up(s, s.h)
    [] k \in {"pgdown", "f", "ctrl+f", "space"} -> Down(s, s.h)
    [] k \in {"home", "g"} -> ToTop(s)
    [] k \in {"end", "G"} -> ToBottom(s)
    [] k = "ctrl+u" -> Up(s, s.h \div 2)
    [] k = "ctrl+d" -> Down(s, s.h \div 2)
    [] OTHER -> s

MouseAct(s, op) ==
  IF ~s.mouse THEN s
  ELSE CASE op.btn = "wheelup" -> Up(s, s.lps)
         [] op.btn = "wheeldown" -> Down(s, s.lps)
         [] op.btn = "left" /\ op.act = "press" -> [s EXCEPT !.drag = TRUE, !.dy = op.y, !.sy = s.off]
         [] op.act = "release" /\ s.drag -> [s EXCEPT !.drag = FALSE, !.dy = 0, !.sy = 0]
         [] op.act = "motion" /\ s.drag -> Goto(s, s.sy - (op.y - s.dy))
         [] OTHER -> s

Apply(s, op) ==
  CASE op.k = "key" -> KeyAct(s, op.key)
    [] op.k = "mouse" -> MouseAct(s, op)
    [] op.k = "content" -> Refit([s EXCEPT !.content = op.lines])
    [] op.k = "append" -> Refit([s EXCEPT !.content = s.content \o op.lines])
    [] op.k \in {"size", "winsize"} -> Refit([s EXCEPT !.w = MaxOf(op.w, 0), !.h = MaxOf(op.h, 0)])
    [] op.k = "follow" -> IF op.on THEN ToBottom(s) ELSE [s EXCEPT !.follow = FALSE]
    [] op.k = "wrap" -> [s EXCEPT !.wrap = op.on]
    [] op.k = "mouseon" -> [s EXCEPT !.mouse = op.on]
    [] op.k = "lps" -> [s EXCEPT !.lps = MaxOf(op.n, 1)]
    [] op.k = "offset" -> Goto(s, op.n)
    [] op.k = "top" -> ToTop(s)
    [] op.k = "bottom" -> ToBottom(s)

Slice(s) == SubSeq(s.content, s.off + 1, MinOf(s.off + s.h, Total(s)))
AllWrapped(s) == FoldLeft(LAMBDA acc, l : acc \o WrapLine(l, s.w), <<>>, Slice(s))
Visible(s) ==
  IF s.w <= 0 THEN <<>>
  ELSE IF s.wrap THEN Take(AllWrapped(s), IF s.strict THEN s.h ELSE Len(AllWrapped(s)))
  ELSE [k \in 1..Len(Slice(s)) |-> CutTo(Slice(s)[k], s.w)]

Obs(s) == [lines |-> Visible(s), off |-> s.off, top |-> s.off = 0, bottom |-> AtBottom(s),
           up |-> s.off > 0, down |-> ~AtBottom(s), total |-> Total(s), h |-> s.h, frozen |-> TRUE]

(* ------------------------------------------------------------------ properties *)
Inv(s) ==
  /\ s.off \in 0..MaxOff(s)
  /\ s.follow => AtBottom(s)                      \* following: the newest line is in view
  /\ ~s.wrap => Len(Visible(s)) <= s.h
  /\ \A k \in 1..Len(Visible(s)) :
        TW(Visible(s)[k]) <= MaxOf(s.w, IF s.wrap /\ s.w = 1 THEN 2 ELSE 0)
  /\ (~s.wrap /\ s.w > 0 /\ s.h > 0 /\ Total(s) > 0) =>
        Len(Visible(s)) = MinOf(s.h, Total(s))     \* never scrolled past the last full page
StepOk(s, op, s2) ==
  /\ (op.k = "key" /\ op.key \in {"up", "k", "pgup"}) => s2.off <= s.off
  /\ (op.k = "append" /\ s.follow) => (s2.off + s2.h >= Total(s2))

(* ------------------------------------------------------------------ small scope *)
L(n) == [k \in 1..n |-> <<1096 + k>>]
WideLine == <<1097, 2001, 1098>>
Cfgs == {[lines |-> L(n), w |-> 2, h |-> h, wrap |-> FALSE, mouse |-> m] :
            n \in {0, 1, 3, 5}, h \in {0, 1, 2, 3}, m \in {FALSE, TRUE}}
Ops(s) ==
  {[k |-> "key", key |-> x] : x \in {"up", "down", "pgup", "pgdown", "home", "end", "ctrl+u", "ctrl+d", "x"}}
  \cup (IF Total(s) <= 5 THEN {[k |-> "append", lines |-> L(1)]} ELSE {})
  \cup {[k |-> "content", lines |-> L(2)], [k |-> "content", lines |-> <<WideLine>>],
        [k |-> "follow", on |-> TRUE], [k |-> "follow", on |-> FALSE],
        [k |-> "offset", n |-> 1], [k |-> "offset", n |-> 9], [k |-> "offset", n |-> -1]}
  \cup {[k |-> "size", w |-> w, h |-> h] : w \in {2}, h \in {0, 1, 4}}
  \cup (IF s.mouse THEN {[k |-> "mouse", btn |-> b, act |-> "press", x |-> 0, y |-> 2] : b \in {"left", "wheelup", "wheeldown"}}
          \cup {[k |-> "mouse", btn |-> "none", act |-> "motion", x |-> 0, y |-> y] : y \in {0, 3}}
          \cup {[k |-> "mouse", btn |-> "left", act |-> "release", x |-> 0, y |-> 0]} ELSE {})
==============================================================================

---- MODULE Core ----
(* Terminal capabilities as detected from the surroundings, and the immutable values of package core.

   ops: [k |-> "detect", plat, env]          detect in surroundings: plat "real" is this machine (Unix)
        [k |-> "term", how, caps]            another terminal: how "plain" | "nil" | "caps"
        [k |-> "size", i, w, h]  [k |-> "raw", i, ok]   another terminal made from the i-th one
        [k |-> "pos", r, c, dr, dc]  [k |-> "cell", t, w]  [k |-> "rawmode", ok]                            *)
EXTENDS Integers, Sequences, FiniteSets, Base

RECURSIVE From(_, _, _)
From(s, t, k) == IF k + Len(t) - 1 > Len(s) THEN FALSE ELSE SubSeq(s, k, k + Len(t) - 1) = t \/ From(s, t, k + 1)
Within(s, t) == From(s, t, 1)
True24 == {"truecolor", "24bit", "TrueColor", "TRUECOLOR", "24Bit", "24BIT"}
TC == 16777216
Known == {0, 8, 256, TC}
Caps(ansi, depth, mouse, alt, cur) == [ansi |-> ansi, depth |-> IF depth \in Known THEN depth ELSE 0,
                                       mouse |-> ansi /\ mouse, alt |-> ansi /\ alt, cur |-> ansi /\ cur]
None == Caps(FALSE, 0, FALSE, FALSE, FALSE)
Full(d) == Caps(TRUE, d, TRUE, TRUE, TRUE)
Depth(e) ==
  IF e.COLORTERM \in True24 \/ e.TERM_PROGRAM \in {"iTerm.app", "vscode", "Hyper", "WarpTerminal"} THEN TC
  ELSE IF e.TERM_PROGRAM = "Apple_Terminal" \/ Within(e.TERM, "256color") THEN 256
  ELSE IF Within(e.TERM, "color") THEN 8
  ELSE IF e.TERM \in {"", "dumb"} THEN 0 ELSE 8
Detect(plat, e) ==
  IF e.NO_COLOR # "" THEN None
  ELSE IF e.FORCE_COLOR # "" THEN (CASE e.FORCE_COLOR = "0" -> None [] e.FORCE_COLOR = "1" -> Full(8) [] e.FORCE_COLOR = "2" -> Full(256) [] OTHER -> Full(TC))
  ELSE CASE plat = "windows" -> IF e.WT_SESSION # "" \/ e.TERM_PROGRAM = "vscode" THEN Full(TC) ELSE Caps(TRUE, 8, FALSE, TRUE, TRUE)
         [] plat = "darwin" -> Full(IF e.TERM_PROGRAM = "Apple_Terminal" /\ Depth(e) = TC THEN 256 ELSE Depth(e))
         [] OTHER -> IF e.TERM \in {"", "dumb"} THEN None ELSE Full(Depth(e))

Term(c) == [caps |-> c, w |-> 80, h |-> 24, raw |-> FALSE]
Nothing == [found |-> None, val |-> << >>, err |-> FALSE]
Init0(cfg) == [terms |-> << >>, res |-> Nothing]
Apply(s0, op) == LET s == [s0 EXCEPT !.res = Nothing]   new(t) == [s EXCEPT !.terms = Append(@, t)] IN
  CASE op.k = "detect" -> [s EXCEPT !.res.found = Detect(op.plat, op.env)]
    [] op.k = "term" -> new(Term(IF op.how = "caps" THEN Caps(op.caps.ansi, op.caps.depth, op.caps.mouse, op.caps.alt, op.caps.cur) ELSE None))
    [] op.k = "size" -> new([s.terms[op.i] EXCEPT !.w = MaxOf(op.w, 1), !.h = MaxOf(op.h, 1)])
    [] op.k = "raw" -> new(s.terms[op.i])       \* a raw mode which was not entered does not make the terminal raw
    [] op.k = "pos" -> LET r == MaxOf(op.r, 0)   c == MaxOf(op.c, 0) IN
         [s EXCEPT !.res.val = <<r, c, MaxOf(r + op.dr, 0), MaxOf(c + op.dc, 0)>>]
    [] op.k = "cell" -> [s EXCEPT !.res.val = <<MaxOf(op.w, 0)>>]
    [] op.k = "rawmode" -> [s EXCEPT !.res.err = ~op.ok]
    [] OTHER -> s
ColorName(d) == CASE d = 0 -> "None" [] d = 8 -> "8 colors" [] d = 256 -> "256 colors" [] OTHER -> "TrueColor (16.7M colors)"
CObs(c) == [ansi |-> c.ansi, depth |-> c.depth, mouse |-> c.mouse, alt |-> c.alt, cur |-> c.cur,
            color |-> c.depth > 0, full |-> c.depth = TC, name |-> ColorName(c.depth)]
Obs(s) == [terms |-> [j \in 1..Len(s.terms) |-> LET t == s.terms[j] IN [caps |-> CObs(t.caps), w |-> t.w, h |-> t.h, raw |-> t.raw]],
           found |-> CObs(s.res.found), val |-> s.res.val, err |-> s.res.err]

CapsOk(c) == (~c.ansi => ~c.mouse /\ ~c.alt /\ ~c.cur) /\ c.depth \in Known
Inv(s) == /\ CapsOk(s.res.found) /\ (~s.res.found.ansi => s.res.found.depth = 0)
          /\ \A t \in SeqSet(s.terms) : CapsOk(t.caps) /\ t.w >= 1 /\ t.h >= 1
StepOk(s, op, s2) ==
  /\ Len(s2.terms) \in {Len(s.terms), Len(s.terms) + 1} /\ SubSeq(s2.terms, 1, Len(s.terms)) = s.terms   \* nothing changes an older one
  /\ op.k = "detect" => /\ (op.env.NO_COLOR # "" => s2.res.found = None)
                        /\ (op.env.NO_COLOR = "" /\ op.env.FORCE_COLOR = "0" => s2.res.found = None)

Cfgs == {[n |-> 0]}
EnvCfgs == Cfgs
Env(n, f, ct, tp, t, wt) == [NO_COLOR |-> n, FORCE_COLOR |-> f, COLORTERM |-> ct, TERM_PROGRAM |-> tp, TERM |-> t, WT_SESSION |-> wt]
Terms == {"", "dumb", "xterm", "xterm-256color", "xterm-color", "vt100", "dumb-color"}
Programs == {"", "iTerm.app", "vscode", "Hyper", "WarpTerminal", "Apple_Terminal", "tmux"}
EnvOps(s) ==
  {[k |-> "detect", plat |-> p, env |-> Env("", "", ct, tp, t, wt)] : p \in {"real", "linux", "windows", "darwin"},
     ct \in {"", "truecolor", "24Bit", "yes"}, tp \in Programs, t \in Terms, wt \in {"", "x"}}
  \cup {[k |-> "detect", plat |-> p, env |-> Env(n, f, ct, tp, t, "x")] : p \in {"real", "windows", "darwin"}, n \in {"", "0", "1"},
     f \in {"0", "1", "2", "3", "true", "x"}, ct \in {"", "truecolor"}, tp \in {"", "vscode"}, t \in {"", "dumb", "xterm-256color"}}
CapSet == {[ansi |-> a, depth |-> d, mouse |-> m, alt |-> x, cur |-> c] : a \in BOOLEAN, d \in {0, 8, 256, TC, 16, -1}, m \in BOOLEAN, x \in BOOLEAN, c \in BOOLEAN}
Ops(s) ==
  {[k |-> "size", i |-> i, w |-> w, h |-> h] : i \in 1..Len(s.terms), w \in {-1, 0, 1, 100}, h \in {0, 50}}
  \cup {[k |-> "raw", i |-> i, ok |-> b] : i \in 1..Len(s.terms), b \in BOOLEAN}
  \cup {[k |-> "term", how |-> h, caps |-> None] : h \in {"plain", "nil"}}
  \cup (IF Len(s.terms) > 0 THEN {} ELSE {[k |-> "term", how |-> "caps", caps |-> c] : c \in CapSet})
  \cup {[k |-> "pos", r |-> r, c |-> 1, dr |-> d, dc |-> 2] : r \in {-1, 0, 3}, d \in {-5, -3, 0, 2}}
  \cup {[k |-> "rawmode", ok |-> b] : b \in BOOLEAN} \cup {[k |-> "cell", t |-> <<97>>, w |-> w] : w \in -1..2}
====

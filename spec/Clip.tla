---- MODULE Clip ----
(* A clipboard: a chain of providers of which the first available one is used, and the history of what was
   copied.  Texts are sequences of bytes.

   cfg: how     "fakes" or "builder" (providers as given, then OSC 52, then the native tools), "new" (the chain
                is chosen from the surroundings) or "global" (the package functions, which make a "new" one)
        provs   the providers: [t |-> "fake", name, mime, avail, c] | [t |-> "osc52"] | [t |-> "native"]
        tools   the clipboard programs which can be found; tty: standard output is a terminal; env: the environment
        coarse  entries made in the same hour have the same time stamp
   Time is counted in hours; an age limit of n means n and a half hours (0 or less: none).               *)
EXTENDS Integers, Sequences, FiniteSets, Base

RECURSIVE SumSizes(_)
SumSizes(h) == IF h = << >> THEN 0 ELSE Len(h[1].c) + SumSizes(Tail(h))
Rng(q) == {q[j] : j \in 1..Len(q)}

SSH(e) == e.SSH_TTY # "" \/ e.SSH_CLIENT # "" \/ e.SSH_CONNECTION # ""
Tool(cfg) == LET T == Rng(cfg.tools) IN
  IF "wl-copy" \in T /\ "wl-paste" \in T THEN "Linux Native (Wayland wl-clipboard)"
  ELSE IF "xclip" \in T THEN "Linux Native (X11 xclip)"
  ELSE IF "xsel" \in T THEN "Linux Native (X11 xsel)" ELSE "none"
\* the order in which the providers are asked: indices into provs
Chain(cfg) == LET n == Len(cfg.provs) IN
  IF cfg.how \in {"new", "global"} /\ cfg.tty /\ SSH(cfg.env) THEN <<2, 1>> ELSE [j \in 1..n |-> j]

Init0(cfg) ==
  [cfg |-> cfg, chain |-> Chain(cfg), env |-> cfg.env, err |-> Len(cfg.provs) = 0,
   res |-> [ok |-> TRUE],
   ps |-> [j \in 1..Len(cfg.provs) |-> LET p == cfg.provs[j] IN
             IF p.t = "fake" THEN [c |-> p.c, w |-> 0, r |-> 0, m |-> "", avail |-> p.avail, rf |-> FALSE, wf |-> FALSE]
             ELSE [c |-> << >>, w |-> 0, r |-> 0, m |-> "", avail |-> TRUE, rf |-> FALSE, wf |-> FALSE]],
   on |-> FALSE, max |-> 0, age |-> 0, hist |-> << >>, nid |-> 0]

Avail(s, j) == LET p == s.cfg.provs[j] IN
  CASE p.t = "fake" -> s.ps[j].avail
    [] p.t = "native" -> Tool(s.cfg) # "none"
    [] OTHER -> s.cfg.tty /\ (SSH(s.env) \/ s.env.TERM \in {"xterm", "xterm-256color", "screen", "tmux", "tmux-256color"})
\* the provider in use: 0 when there is none
Cur(s) == LET A == {k \in 1..Len(s.chain) : Avail(s, s.chain[k])} IN IF A = {} THEN 0 ELSE s.chain[Min(A)]
Name(s, j) == IF j = 0 THEN "none"
  ELSE CASE s.cfg.provs[j].t = "fake" -> s.cfg.provs[j].name [] s.cfg.provs[j].t = "native" -> Tool(s.cfg) [] OTHER -> "OSC52"

Res(s, r) == [s EXCEPT !.res = r]
Fail(s) == Res(s, [ok |-> FALSE])
Good(s) == Res(s, [ok |-> TRUE])
Val(s, v) == Res(s, [ok |-> TRUE, v |-> v])

Remember(s, c, m) == IF ~s.on THEN s ELSE
  LET h == Append(s.hist, [n |-> s.nid + 1, c |-> c, m |-> m, age |-> 0]) IN
  [s EXCEPT !.nid = @ + 1, !.hist = IF s.max > 0 /\ Len(h) > s.max THEN Tail(h) ELSE h]
Mime(m) == CASE m = "html" -> "text/html" [] m = "rtf" -> "text/rtf" [] OTHER -> "text/plain"
Write(s, c, mime) == LET j == Cur(s) IN
  IF c = << >> \/ j = 0 THEN Fail(s)
  ELSE LET fake == s.cfg.provs[j].t = "fake"
           s1 == IF fake THEN [s EXCEPT !.ps[j].w = @ + 1]
                 ELSE IF s.cfg.provs[j].t = "osc52" THEN [s EXCEPT !.ps[j].w = @ + 1] ELSE s
       IN IF s.ps[j].wf /\ s.cfg.provs[j].t # "osc52" THEN Fail(s1)
          ELSE Good(Remember([s1 EXCEPT !.ps[j].c = c, !.ps[j].m = IF fake THEN "text/plain" ELSE ""], c, mime))
Read(s) == LET j == Cur(s) IN
  IF j = 0 THEN Fail(s)
  ELSE LET p == s.cfg.provs[j]
           s1 == IF p.t = "fake" THEN [s EXCEPT !.ps[j].r = @ + 1] ELSE s
       IN IF p.t = "osc52" \/ s.ps[j].rf \/ s.ps[j].c = << >> THEN Fail(s1)
          ELSE IF p.t = "fake" /\ p.mime \notin {"text/plain", "text/html", "text/rtf"} THEN Fail(s1)
          ELSE Val(s1, s.ps[j].c)

Shown(e) == [n |-> e.n, c |-> e.c, m |-> e.m, age |-> e.age, size |-> Len(e.c)]
Newest(h) == [j \in 1..Len(h) |-> Shown(h[Len(h) + 1 - j])]
Find(s, n) == {j \in 1..Len(s.hist) : s.hist[j].n = n}
Old(s, e) == s.age > 0 /\ e.age > s.age

\* op.g writers made op.n copies each at the same time, while others looked at the history; op.got is what
\* the history then listed (writer and number, newest first), op.last what the provider holds
ParOk(s, op) ==
  LET tot == op.g * op.n
      want == IF ~s.on THEN 0 ELSE IF s.max > 0 /\ s.max < tot THEN s.max ELSE tot
      of(g) == SelectSeq(op.got, LAMBDA x : x[1] = g)
  IN /\ Len(op.got) = want
     /\ \A j \in 1..Len(op.got) : op.got[j][1] \in 1..op.g
     /\ \A g \in 1..op.g : LET q == of(g) IN \A j \in 1..Len(q) : q[j][2] = op.n - j
     /\ op.w = tot /\ op.last[2] = op.n - 1 /\ op.last[1] \in 1..op.g
     /\ op.ids = s.nid + want

Apply(s0, op) ==
  LET s == Good(s0) IN
  IF s.err THEN Fail(s) ELSE
  CASE op.k = "avail" -> [s EXCEPT !.ps[op.i].avail = op.on]
    [] op.k = "fail" -> [s EXCEPT !.ps[op.i].rf = op.r, !.ps[op.i].wf = op.w]
    [] op.k = "env" -> [s EXCEPT !.env = op.e]
    [] op.k = "tick" -> [s EXCEPT !.hist = [j \in 1..Len(@) |-> [@[j] EXCEPT !.age = @ + op.n]]]
    [] op.k = "write" -> Write(s, op.c, Mime(op.m))
    [] op.k = "read" -> Read(s)
    [] op.k = "image" -> Fail(s)
    [] op.k = "enable" -> [s EXCEPT !.on = TRUE, !.hist = << >>, !.max = IF op.max < 0 \/ op.huge THEN 0 ELSE op.max,
                                    !.age = IF op.age < 0 THEN 0 ELSE op.age]
    [] op.k = "disable" -> [s EXCEPT !.on = FALSE, !.hist = << >>]
    [] op.k = "clear" -> [s EXCEPT !.hist = << >>]
    [] op.k = "expire" -> LET keep == SelectSeq(s.hist, LAMBDA e : ~Old(s, e)) IN
         Val([s EXCEPT !.hist = keep], Len(s.hist) - Len(keep))
    [] op.k = "recent" -> Val(s, LET l == Newest(s.hist) IN IF op.n <= 0 \/ op.n > Len(l) THEN l ELSE SubSeq(l, 1, op.n))
    [] op.k = "entry" -> IF Find(s, op.i) = {} THEN Fail(s) ELSE Val(s, Shown(s.hist[Min(Find(s, op.i))]))
    [] op.k = "restore" -> IF Find(s, op.i) = {} THEN Fail(s)
         ELSE LET e == s.hist[Min(Find(s, op.i))] IN Write(s, e.c, e.m)
    [] op.k = "scribble" -> s
    [] op.k = "par" -> IF ParOk(s, op) THEN [s EXCEPT !.hist = << >>, !.nid = op.ids, !.ps[1].c = << >>, !.ps[1].m = "", !.ps[1].w = 0, !.ps[1].r = 0]
                       ELSE Val(s, "not a possible outcome")

Obs(s) == IF s.err THEN [err |-> TRUE, res |-> s.res]
  ELSE [err |-> FALSE, res |-> s.res, name |-> Name(s, Cur(s)), avail |-> Cur(s) # 0,
        ssh |-> s.cfg.how \in {"builder", "new"} /\ SSH(s.env),
        st |-> [j \in 1..Len(s.ps) |-> [c |-> s.ps[j].c, w |-> s.ps[j].w, r |-> s.ps[j].r, m |-> s.ps[j].m]],
        on |-> s.on, hist |-> Newest(s.hist), size |-> Len(s.hist), total |-> SumSizes(s.hist)]

\* ---------------------------------------------------------------------------- what must hold of the model
Inv(s) ==
  /\ s.max > 0 => Len(s.hist) <= s.max
  /\ ~s.on => s.hist = << >>
  /\ \A j \in 1..Len(s.hist) : s.hist[j].c # << >>
  /\ \A j \in 1..Len(s.hist) - 1 : s.hist[j].n < s.hist[j + 1].n /\ s.hist[j].age >= s.hist[j + 1].age
StepOk(s, op, s2) ==
  LET touched == {j \in 1..Len(s.ps) : s2.ps[j] # s.ps[j]} IN
  /\ op.k \in {"write", "read", "restore"} => touched \subseteq {Cur(s)}
  /\ op.k = "write" => (s2.res.ok => Cur(s) # 0 /\ s2.ps[Cur(s)].c = op.c)
  /\ op.k \in {"write", "restore"} /\ ~s2.res.ok => s2.hist = s.hist
  /\ op.k = "write" /\ s2.res.ok /\ s.on => Newest(s2.hist)[1].c = op.c /\ Len(s2.hist) >= Len(s.hist)
  /\ op.k = "read" => s2.hist = s.hist
  /\ op.k = "expire" => \A j \in 1..Len(s2.hist) : ~Old(s2, s2.hist[j])

NoEnv == [TERM |-> "", SSH_TTY |-> "", SSH_CLIENT |-> "", SSH_CONNECTION |-> ""]
F(nm, av, mime) == [t |-> "fake", name |-> nm, mime |-> mime, avail |-> av, c |-> << >>]
Base(ps) == [how |-> "fakes", provs |-> ps, tools |-> << >>, tty |-> FALSE, env |-> NoEnv, osc52 |-> FALSE, native |-> FALSE, coarse |-> FALSE]
ChainCfgs == {Base(<<F("A", TRUE, "text/plain"), F("B", FALSE, "text/html"), F("C", TRUE, "text/rtf")>>), Base(<< >>),
              Base(<<F("A", FALSE, "text/plain"), F("B", TRUE, "image/png")>>)}
ChainOps(s) ==
  {[k |-> "avail", i |-> j, on |-> b] : j \in 1..Len(s.ps), b \in BOOLEAN}
  \union {[k |-> "fail", i |-> j, r |-> x[1], w |-> x[2]] : j \in 1..Min({2, Len(s.ps)}), x \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>}}
  \union {[k |-> "write", c |-> c, m |-> m] : c \in {<<97>>, << >>}, m \in {"plain", "html"}}
  \union {[k |-> "read", m |-> "plain"], [k |-> "enable", max |-> 2, age |-> 0, huge |-> FALSE]}
  \union (IF s.hist = << >> THEN {} ELSE {[k |-> "restore", i |-> s.hist[1].n]})
HistCfgs == {[Base(<<F("A", TRUE, "text/plain")>>) EXCEPT !.coarse = b] : b \in BOOLEAN}
HistOps(s) ==
  {[k |-> "write", c |-> c, m |-> m] : c \in {<<97>>, <<98, 99>>}, m \in {"plain", "rtf"}}
  \union {[k |-> "enable", max |-> m, age |-> a, huge |-> FALSE] : m \in {-1, 1, 2}, a \in {0, 1}}
  \union {[k |-> "tick", n |-> 1], [k |-> "expire"], [k |-> "clear"], [k |-> "disable"], [k |-> "recent", n |-> 1]}
  \union {[k |-> "restore", i |-> i] : i \in {s.nid}} \union {[k |-> "entry", i |-> i] : i \in {s.nid, s.nid - 2}}
====

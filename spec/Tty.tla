-------------------------------- MODULE Tty --------------------------------
(* A program that owns a real terminal, and the external programs it lends it to.
   The terminal has line modes (raw), a screen (alt, cur) and a foreground process group; what is typed
   goes to whoever owns the terminal: the program's Update while it runs, the external program while one
   runs, the application itself while the program is suspended or after it has ended - every character
   to exactly one of them.  Lines typed while nobody reads wait (pend) for the next reader.
   phase: idle (not started), run, susp, done.                                                       *)
EXTENDS Base

None == [err |-> "", ran |-> FALSE, own |-> FALSE, fg |-> FALSE, cooked |-> FALSE, calt |-> FALSE, ccur |-> FALSE, stopped |-> FALSE, line |-> <<>>]
Init0(cfg) == [cfg |-> cfg, phase |-> "idle", cur |-> TRUE, keys |-> <<>>, pend |-> <<>>, last |-> None]

(* ------------------------------------------------------------------ an external program *)
WithTty(op) == op.how = "tty"
Result(op) ==
  CASE op.kind = "nil" -> "nil"
    [] op.kind = "nostart" -> "start"
    [] op.kind = "kill" -> "signal: killed"
    [] op.kind = "intr" -> "signal: interrupt"
    [] op.code = 0 -> ""
    [] OTHER -> "exit status " \o ToString(op.code)
Ran(op) == Result(op) \notin {"nil", "start"}
\* the lines an external program has before it, and how many of them it reads
Typed(op) == CASE op.kind \in {"read", "stop"} -> <<op.t>> [] op.kind = "read2" -> <<op.t, op.t>> [] OTHER -> <<>>
Lines(s, op) == IF op.kind \in {"intr", "stop"} THEN Typed(op)     \* the interrupt and suspend characters discard what is waiting
                ELSE s.pend \o Typed(op)
Reads(op) == Len(Typed(op))
ENTER == -1
\* the program takes what is waiting as keys
Enter(s) == [s EXCEPT !.keys = @ \o Cat([i \in 1..Len(s.pend) |-> Append(s.pend[i], ENTER)]), !.pend = <<>>]
Report(s, op) ==
  [err |-> Result(op), ran |-> Ran(op), own |-> Ran(op) /\ WithTty(op) /\ op.cpg,
   \* it is in the foreground, unless it was given a group of its own but not the terminal
   fg |-> Ran(op) /\ (WithTty(op) /\ op.cpg => op.tf), cooked |-> Ran(op), calt |-> FALSE, ccur |-> Ran(op),
   stopped |-> op.kind = "stop",
   line |-> Cat(Take(Lines(s, op), Reads(op)))]

Apply(s, op) ==
  CASE op.k = "start" -> [s EXCEPT !.phase = "run", !.last = None]
    [] op.k = "type" -> [s EXCEPT !.keys = @ \o op.t, !.last = None]
    [] op.k = "ahead" -> [s EXCEPT !.pend = Append(@, op.t), !.last = None]
    [] op.k = "suspend" -> [s EXCEPT !.phase = IF @ = "run" THEN "susp" ELSE @, !.cur = TRUE, !.last = None]
    [] op.k = "resume" -> IF s.phase = "susp" THEN [Enter(s) EXCEPT !.phase = "run", !.cur = FALSE, !.last = None] ELSE [s EXCEPT !.last = None]
    [] op.k = "read" -> [s EXCEPT !.last = [None EXCEPT !.line = Head(Append(s.pend, op.t)), !.ccur = TRUE], !.pend = Tail(Append(@, op.t))]
    [] op.k = "exec" ->
         LET t == [s EXCEPT !.last = Report(s, op), !.cur = IF s.phase = "run" /\ op.kind # "nil" THEN FALSE ELSE @,
                            !.pend = IF Ran(op) THEN Drop(Lines(s, op), Reads(op)) ELSE @]
         IN IF s.phase = "run" THEN Enter(t) ELSE t
    [] OTHER -> [s EXCEPT !.phase = "done", !.cur = TRUE, !.last = None]

Obs(s) == s.last @@ [keys |-> s.keys, drawn |-> TRUE, raw |-> s.phase = "run", top |-> TRUE, alt |-> s.phase = "run" /\ s.cfg.alt, cur |-> s.cur]

(* ------------------------------------------------------------------ exploration *)
Cfgs == {[alt |-> a] : a \in BOOLEAN}
Ex(s, how, tf, cpg, kind, code) ==
  [k |-> "exec", how |-> how, tf |-> tf, cpg |-> cpg, kind |-> kind, code |-> code, t |-> IF kind \in {"read", "read2", "stop"} THEN <<111, 107>> ELSE <<>>,
   cmd |-> code = 0, busy |-> FALSE, redraw |-> s.phase = "run" /\ kind # "nil", nk |-> Len(s.keys)]
Execs(s) ==
  {Ex(s, "plain", FALSE, FALSE, kd, c) : kd \in {"read", "exit"}, c \in {0, 3}} \cup {Ex(s, "plain", FALSE, FALSE, kd, 0) : kd \in {"nil", "nostart", "kill"}}
  \cup {Ex(s, "tty", TRUE, TRUE, kd, c) : kd \in {"read"}, c \in {0, 4}} \cup {Ex(s, "tty", TRUE, TRUE, kd, 0) : kd \in {"exit", "kill", "nostart", "nil", "intr", "read2"} \cup (IF s.pend = <<>> THEN {"stop"} ELSE {})}
  \cup {Ex(s, "tty", FALSE, FALSE, kd, 0) : kd \in {"read", "exit"}} \cup {Ex(s, "tty", FALSE, TRUE, "exit", c) : c \in {0, 5}} \cup {Ex(s, "tty", TRUE, FALSE, kd, 0) : kd \in {"exit", "read"}}
Ops(s) ==
  CASE s.phase = "idle" -> {[k |-> "start", alt |-> s.cfg.alt, bg |-> b, dev |-> d, redraw |-> TRUE] : b \in BOOLEAN, d \in BOOLEAN}
    [] s.phase = "run" -> {[k |-> "type", t |-> <<97, 98>>], [k |-> "suspend"], [k |-> "stop"]} \cup Execs(s)
    [] s.phase = "susp" -> {[k |-> "read", t |-> <<104, 105>>], [k |-> "suspend"], [k |-> "ahead", t |-> <<113, 113>>], [k |-> "resume", redraw |-> TRUE, nk |-> Len(Enter(s).keys)], [k |-> "stop"]} \cup Execs(s)
    [] OTHER -> {[k |-> "read", t |-> <<104, 105>>]}
Inv(s) == s.last.line # <<>> => ~s.last.calt /\ s.last.ccur
StepOk(s, op, s2) ==
  \* what is typed is received exactly once, by the owner, or waits
  LET size(q) == FoldLeft(LAMBDA n, l : n + Len(l) + 1, 0, q)
      typed == (CASE op.k = "type" -> Len(op.t) [] op.k \in {"ahead", "read"} -> Len(op.t) + 1 [] op.k = "exec" -> IF Ran(op) THEN size(Typed(op)) ELSE 0 [] OTHER -> 0)
      got == Len(s2.last.line) + (CASE op.k = "read" -> 1 [] op.k = "exec" /\ Ran(op) -> Reads(op) [] OTHER -> 0)
  IN /\ (op.k = "exec" /\ op.kind \in {"intr", "stop"}) \/ Len(s2.keys) + size(s2.pend) + got = Len(s.keys) + size(s.pend) + typed
     /\ op.k = "exec" => s2.phase = s.phase
     /\ s2.phase = "run" => s2.pend = <<>>
=============================================================================

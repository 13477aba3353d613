----------------------------- MODULE TeaScript -----------------------------
(* The lifecycle of a tea program as one user thread drives it: which operations make sense when.
   Its behaviours are replayed on the real program as scripts, judged by Tea.tla.                  *)
EXTENDS Base
Fail(op, at) == <<[op |-> op, at |-> at]>>
TFails == {<<>>} \union {Fail(op, at) : op \in {"enterraw", "exitraw", "enteralt", "exitalt", "show", "hide"}, at \in {0, 1, 2}}
Cfgs == {[alt |-> a, fail |-> f] : a \in BOOLEAN, f \in TFails}
Init0(cfg) == [cfg |-> cfg, run |-> "idle", blocked |-> FALSE, susp |-> FALSE, mode |-> "start", n |-> 0, runs |-> 0, last |-> <<>>]
K(k) == [k |-> k]
Ops(s) ==
  (IF s.run = "idle" /\ s.runs < 2 THEN {K("start"), K("run")} ELSE {})
  \union (IF s.run = "up" /\ ~s.blocked THEN {K("plain"), K("gated"), K("cmd"), K("quitcmd"), K("quiet")} \union (IF s.mode = "run" THEN {K("panic")} ELSE {}) ELSE {})
  \union (IF s.blocked THEN {K("open")} ELSE {})
  \union (IF s.run \in {"up", "idle"} THEN {K("suspend"), K("resume"), [k |-> "exec", code |-> s.n % 3]} ELSE {})
  \union (IF s.run = "up" /\ ~s.blocked THEN {K("stop"), K("sendquit")} ELSE {})
  \union (IF s.run = "ending" THEN {K("ended"), K("suspend"), K("resume")} ELSE {})
Apply(s, op) ==
  [(CASE op.k \in {"start", "run"} -> [s EXCEPT !.run = "up", !.mode = op.k, !.runs = @ + 1, !.susp = FALSE]
     [] op.k = "gated" -> [s EXCEPT !.blocked = TRUE]
     [] op.k = "open" -> [s EXCEPT !.blocked = FALSE]
     [] op.k \in {"stop", "sendquit", "quitcmd", "panic"} -> [s EXCEPT !.run = "ending"]
     [] op.k = "ended" -> [s EXCEPT !.run = "idle", !.susp = FALSE]
     [] op.k = "suspend" -> [s EXCEPT !.susp = TRUE]
     [] op.k = "resume" -> [s EXCEPT !.susp = FALSE]
     [] OTHER -> s) EXCEPT !.n = @ + 1, !.last = Take(<<op.k>> \o @, 2)]
Obs(s) == s.n
Inv(s) == s.blocked => s.run = "up"
StepOk(s, op, s2) == (s.run = "idle" /\ s2.run # "idle") => op.k \in {"start", "run"}
============================================================================

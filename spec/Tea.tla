-------------------------------- MODULE Tea --------------------------------
(* The tea program as its users see it: the model (Init, Update, View), messages and commands, the
   lifecycle (Start, Run, Stop, quit, panic), and the terminal it borrows (modes, Suspend, Resume,
   ExecProcess).  Every observable event of a run - calls in, returns, calls out - is one action;
   Succ(s, ev) is {} when no behaviour of the specification explains ev.
   Rules carry the property they belong to; cfg.prop selects whose rules are enforced, so that the
   check of one property does not report another property's violation.

   Commands: cfg.leaves lists the leaf commands of all command trees, each with its root (the message
   whose Update returned the tree) and pre: the leaves which every enclosing Sequence puts before it. *)
EXTENDS Base

Rule(s, ps, name, cond) ==
  IF s.cfg.prop \notin ps \/ cond THEN TRUE ELSE PrintT(<<"rule", s.cfg.prop, name>>) /\ FALSE

\* a rule table: R(s, <<<<props, name, cond>>, ...>>, next)
R(s, rules, next) == IF \A k \in 1..Len(rules) : Rule(s, rules[k][1], rules[k][2], rules[k][3]) THEN {next} ELSE {}

InitSet(cfg) ==
  {[cfg |-> [prop |-> cfg.prop, alt |-> cfg.alt, fails |-> Len(cfg.fail) > 0,
             leaf |-> [k \in 1..Len(cfg.leaves) |-> \* cfg.leaves[k].l = k
                        LET r == cfg.leaves[k]
                        IN [root |-> r.root, kind |-> r.kind, pre |-> SeqSet(r.pre),
                            res |-> {p \in SeqSet(r.pre) : cfg.leaves[p].kind # "nil"}]]],
    run |-> "idle", cur |-> 0, starts |-> 0, starting |-> FALSE, inited |-> FALSE, cause |-> FALSE, must |-> FALSE, panicked |-> FALSE,
    phase |-> "none", ver |-> 0, lastv |-> -1,
    called |-> {}, okd |-> {}, errd |-> {}, handled |-> {}, stale |-> {},
    fed |-> {}, kh |-> {}, off |-> FALSE, nilh |-> 0,
    lb |-> {}, ld |-> {}, lh |-> {}, lstale |-> {}, sched |-> {}, old |-> {},
    raw |-> FALSE, alt |-> FALSE, vis |-> TRUE, endfail |-> {}, everinj |-> FALSE,
    susp |-> "no", saved |-> <<>>, calls |-> {}, alive |-> {}, redraw |-> FALSE, oldquit |-> FALSE, exitbad |-> {}]}

Leaves(s) == DOMAIN s.cfg.leaf
OfRoot(s, r) == {l \in Leaves(s) : s.cfg.leaf[l].root = r}
Silent(s, l) == s.cfg.leaf[l].kind \in {"nil", "quit"}
Complete(s, r) == OfRoot(s, r) \subseteq s.ld
\* the program has to end: nothing can excuse it any longer
Must(s) == \/ s.must \/ s.panicked
           \/ \E r \in s.sched : Complete(s, r) /\ \E l \in OfRoot(s, r) : s.cfg.leaf[l].kind = "quit"
TtyOps == {"suspend", "resume", "exec"}
TtyCalls(s) == {c \in s.calls : c.op \in TtyOps}
Dirty(s) == [s EXCEPT !.calls = {[c EXCEPT !.clean = FALSE] : c \in s.calls}]
Mixed(s) == [s EXCEPT !.calls = {[c EXCEPT !.clean = FALSE, !.mix = TRUE] : c \in s.calls}]
Ending(s) == s.run = "up" /\ s.cause
Cause(s) == [Dirty(s) EXCEPT !.cause = TRUE]

T3 == {"T03"}
T4 == {"T04"}
T5 == {"T05"}
(* ------------------------------------------------------------------ the end of a run *)
EndRules(s) ==
  << <<T3, "ends only when asked to", s.cause \/ s.oldquit>>,
     <<T4, "raw mode left", ~s.raw \/ "raw" \in s.endfail>>,
     <<T4, "alternate screen left", ~s.alt \/ "alt" \in s.endfail>>,
     <<T4, "cursor visible", s.vis \/ "vis" \in s.endfail>> >>
EndState(s) == [Dirty(s) EXCEPT !.run = "idle", !.phase = "none", !.starting = FALSE, !.redraw = FALSE]
\* s, after the news that the program is not running
Over(s, more) == IF s.run = "up" THEN R(s, EndRules(s) \o more, EndState(s)) ELSE R(s, more, s)

(* ------------------------------------------------------------------ calls into the program *)
NewRun(s, id) ==
  [Mixed(s) EXCEPT !.run = "up", !.cur = id, !.starts = s.starts + 1, !.starting = TRUE, !.inited = FALSE, !.cause = FALSE, !.must = FALSE,
    !.panicked = FALSE, !.stale = s.called, !.off = s.off \/ s.starts > 0, !.phase = "none",
    !.lstale = s.lstale \union UNION {OfRoot(s, r) : r \in s.sched}, !.old = s.old \union s.sched, !.sched = {},
    !.susp = IF TtyCalls(s) = {} THEN "no" ELSE "maybe", !.redraw = FALSE, !.oldquit = s.oldquit \/ s.cause]

Rec(s, ev, clean, mix) ==
  [id |-> ev.id, op |-> ev.op, clean |-> clean, mix |-> mix, raw |-> s.raw, alt |-> s.alt, susp |-> s.susp, inj |-> 0,
   want |-> IF ev.op = "exec" THEN (IF ev.missing THEN -1 ELSE ev.want) ELSE 0,
   idle |-> s.run = "idle", cur |-> s.cur, sure |-> s.run = "up" /\ ~s.cause]

CallEv(s, ev) ==
  CASE ev.op \in {"start", "run"} ->
         IF s.run = "idle" THEN {NewRun(s, ev.id)}
         ELSE {[s EXCEPT !.calls = @ \union {Rec(s, ev, FALSE, TRUE)}]}
    [] ev.op = "send" ->
         {[s EXCEPT !.called = @ \union {<<ev.th, ev.ns[k]>> : k \in 1..Len(ev.ns)}, !.calls = @ \union {Rec(s, ev, FALSE, FALSE)}]}
    [] ev.op = "sendquit" -> {[(IF s.run = "up" THEN Cause(s) ELSE s) EXCEPT !.calls = @ \union {Rec(s, ev, FALSE, FALSE)}]}
    [] ev.op = "stop" -> {[(IF s.run = "up" THEN [Cause(s) EXCEPT !.must = TRUE] ELSE s) EXCEPT !.calls = @ \union {Rec(s, ev, FALSE, FALSE)}]}
    [] OTHER ->
         LET others == TtyCalls(s)
             mix == s.starting \/ \E c \in others : c.op # "suspend" \/ ev.op # "suspend"
             s1 == IF ev.op # "suspend" THEN Mixed(s)
                   ELSE [s EXCEPT !.calls = {[c EXCEPT !.clean = FALSE, !.mix = @ \/ c.op # "suspend"] : c \in s.calls}]
         IN {[s1 EXCEPT !.calls = @ \union {Rec(s, ev, others = {} /\ ~s.starting /\ ~Ending(s), mix)},
                        !.off = TRUE,
                        !.redraw = @ \/ (ev.op = "resume" /\ s.susp = "yes" /\ s.run = "up"),
                        !.susp = IF ev.op = "suspend" \/ (ev.op = "exec" /\ s.susp = "yes") THEN s.susp
                                 ELSE IF ev.op = "resume" /\ s.susp = "no" /\ others = {} THEN "no" ELSE "maybe"]}

Flag(s, c, ev, want) == \* what IsSuspended said, when nobody else could have changed it
  <<T5, "IsSuspended tells the truth", c.clean /\ c.susp # "maybe" /\ s.run = "up" /\ ~s.cause /\ TtyCalls(s) = {c} => ev.susp = want>>
IsOff(s, c) == (~s.raw \/ "raw" \in s.exitbad) /\ (~s.alt \/ "alt" \in s.exitbad) /\ (s.vis \/ "vis" \in s.exitbad)
Same(s, c) == s.raw = c.raw /\ s.alt = c.alt

RetEv(s, ev) ==
  LET mine == {x \in s.calls : x.id = ev.id}
      c == CHOOSE x \in mine : TRUE
      s1 == [s EXCEPT !.calls = @ \ mine]
  IN
  CASE ev.op = "start" /\ mine = {} ->
         R(s, << <<T3, "a program that does not run can be started", ev.ok>> >>, s)
    [] ev.op = "run" /\ mine = {} /\ ev.id # s.cur -> {s} \* an earlier run whose end was already known
    [] ev.op = "run" /\ mine = {} ->
         Over(s, << <<T3, "Run fails only when the alternate screen does", ev.ok \/ ev.panicked \/ s.everinj>>,
                    <<T3, "not running after Run returned", ~ev.running>> >>)
    [] ev.op \in {"start", "run"} ->
         R(s, << <<T4, "a running program is not started again", c.sure /\ c.cur = s.cur => ~ev.ok>> >>, s1)
    [] ev.op = "send" ->
         LET ids == {<<ev.th, ev.ns[k]>> : k \in 1..Len(ev.ns)}
         IN R(s, << <<T3, "no message is accepted after the end", c.idle /\ s.run = "idle" => ~ev.ok>>,
                    <<{"T01"}, "a running program accepts messages", ev.ok \/ ev.ms >= 90 \/ ~c.sure \/ c.cur # s.cur \/ s.cause \/ s.run = "idle">>,
                    <<{"T01"}, "a refused message is not handled", ev.ok \/ ids \cap s.handled = {}>> >>,
              IF ev.ok THEN [s1 EXCEPT !.okd = @ \union ids] ELSE [s1 EXCEPT !.errd = @ \union ids])
    [] ev.op = "sendquit" -> {[s1 EXCEPT !.must = @ \/ (ev.ok /\ s.run = "up" /\ ~c.idle /\ c.cur = s.cur)]}
    [] ev.op = "stop" ->
         LET late == <<T3, "Stop waits for the end", c.idle \/ c.cur # s.cur \/ ~ev.running \/ ev.ms >= 900>>
             soon == <<T3, "Stop returns", ev.ms < 4000>>
         IN IF ~ev.running /\ ~c.idle /\ c.cur = s.cur THEN Over(s1, <<late, soon>>) ELSE R(s, <<late, soon>>, s1)
    [] ev.op = "suspend" ->
         IF ev.ok
         THEN R(s, << <<T5, "the terminal is normal after Suspend", c.mix \/ ~(c.clean \/ c.susp = "yes") \/ IsOff(s, c)>>, Flag(s, c, ev, TRUE) >>,
                [s1 EXCEPT !.susp = IF c.mix THEN "maybe" ELSE "yes",
                           !.saved = IF c.susp = "yes" THEN @ ELSE IF c.susp = "no" /\ c.clean THEN <<c.raw, c.alt>> ELSE <<>>])
         ELSE R(s, << <<T5, "Suspend fails only when the terminal does", c.inj > 0>>,
                      <<T5, "a failing Suspend leaves the modes", c.clean /\ c.inj < 2 => Same(s, c)>>, Flag(s, c, ev, c.susp = "yes") >>,
                [s1 EXCEPT !.susp = IF c.clean THEN c.susp ELSE "maybe"])
    [] ev.op = "resume" ->
         IF ev.ok
         THEN R(s, << <<T5, "the modes are back after Resume", c.clean /\ c.susp = "yes" /\ s.starts > 0 /\ ~c.idle /\ s.saved # <<>> => <<s.raw, s.alt>> = s.saved>>,
                      <<T5, "Resume without Suspend does nothing", c.clean /\ c.susp = "no" => Same(s, c)>>, Flag(s, c, ev, FALSE) >>,
                [s1 EXCEPT !.susp = IF c.mix \/ s.starting \/ TtyCalls(s) # {c} THEN "maybe" ELSE "no"])
         ELSE R(s, << <<T5, "Resume fails only when the terminal does", c.inj > 0>>,
                      <<T5, "a failing Resume leaves the terminal normal", c.clean /\ c.inj < 2 => IsOff(s, c)>>, Flag(s, c, ev, TRUE) >>,
                [s1 EXCEPT !.susp = IF c.clean THEN c.susp ELSE "maybe", !.redraw = FALSE])
    [] OTHER -> \* exec
         LET res == <<T5, "ExecProcess returns the external process's result", c.inj = 0 => (ev.ok = (c.want = 0) /\ ev.code = c.want)>>
             failed == c.inj > 0 /\ c.clean /\ ev.susp /\ c.susp = "no"
         IN R(s, << res,
                    <<T5, "modes restored after ExecProcess", c.clean /\ ~c.idle /\ c.susp = "no" /\ c.inj = 0 => Same(s, c)>>,
                    <<T5, "still suspended after nested ExecProcess", c.clean /\ c.susp = "yes" => IsOff(s, c)>>,
                    <<T5, "a failing ExecProcess leaves a usable terminal", failed /\ c.inj < 2 => IsOff(s, c)>>,
                    <<T5, "a failing ExecProcess leaves a usable terminal ", c.inj = 1 /\ c.clean /\ ~ev.susp /\ c.susp = "no" => Same(s, c)>>,
                    IF c.inj = 0 THEN Flag(s, c, ev, c.susp = "yes") ELSE <<T5, "", TRUE>> >>,
              [s1 EXCEPT !.susp = IF c.mix \/ ~c.clean \/ c.susp = "maybe" THEN (IF Ending(s) THEN "no" ELSE "maybe") ELSE IF failed THEN "yes" ELSE c.susp,
                         !.redraw = @ /\ ~failed, !.saved = IF failed THEN <<c.raw, c.alt>> ELSE @,
                         !.alive = @ \ {ev.id}])

(* ------------------------------------------------------------------ the model *)
Model(s, ev, name) ==
  << <<{"T01"}, "model calls never overlap", s.phase = "none">>,
     <<T3, "nothing runs after the end", s.run = "up" \/ (name = "view" /\ s.starts = 0)>>,
     <<T3, "nothing runs after a panic", ~s.panicked>>,
     <<{"T01"}, "the model is the one the last Update returned", ev.ver = s.ver>> >>

UBegin(s, ev) ==
  LET base == Model(s, ev, "update") \o << <<{"T01"}, "Init comes first", s.inited>> >>
      up(x) == [x EXCEPT !.phase = "update"]
  IN
  CASE ev.src = "msg" ->
         LET id == <<ev.th, ev.n>>
         IN R(s, base \o << <<{"T01"}, "only sent messages are handled", id \in s.called \ s.errd>>,
                            <<{"T01"}, "a message is handled once", id \notin s.handled>>,
                            <<{"T01"}, "messages of one sender keep their order",
                                \A x \in s.okd : x[1] = ev.th /\ x[2] < ev.n => x \in s.handled \union s.stale>> >>,
              up([s EXCEPT !.handled = @ \union {id}]))
    [] ev.src = "key" ->
         R(s, base \o << <<{"T01"}, "only typed keys are handled", ev.n \in s.fed>>,
                         <<{"T01"}, "a key is handled once", ev.n \notin s.kh>>,
                         <<{"T01"}, "keys keep their order", IF s.off THEN \A k \in s.kh : k < ev.n ELSE \A k \in s.fed : k < ev.n => k \in s.kh>> >>,
           up([s EXCEPT !.kh = @ \union {ev.n}]))
    [] ev.src = "leaf" ->
         LET known == ev.l \in Leaves(s)
             pre == IF known THEN s.cfg.leaf[ev.l].res ELSE {}
         IN R(s, base \o << <<{"T01", "T02"}, "only results of finished commands are handled", ev.l \in s.ld>>,
                            <<{"T01", "T02"}, "a result is handled once", ev.l \notin s.lh>>,
                            <<{"T02"}, "results of a Sequence keep their order",
                                pre \subseteq s.lh>> >>,
              up([s EXCEPT !.lh = @ \union {ev.l}]))
    [] ev.src = "nil" ->
         R(s, base \o << <<{"T01", "T02"}, "no invented results", s.nilh < Cardinality({l \in s.ld : s.cfg.leaf[l].kind = "nil"})>> >>,
           up([s EXCEPT !.nilh = @ + 1]))
    [] OTHER -> R(s, base \o << <<{"T01", "T02"}, "messages reach Update unchanged", FALSE>> >>, up(s))

Sched(s, ev) == IF ev.cmd THEN [s EXCEPT !.sched = @ \union {ev.root}] ELSE s

(* ------------------------------------------------------------------ the terminal *)
Owned(s) == s.susp = "yes" \/ \E c \in s.calls : c.id \in s.alive /\ ~c.mix
TermEv(s, ev) ==
  LET enter == ev.op \in {"enterraw", "enteralt"}
      mode == CASE ev.op \in {"enterraw", "exitraw"} -> "raw" [] ev.op \in {"enteralt", "exitalt"} -> "alt" [] OTHER -> "vis"
      on == IF mode = "raw" THEN s.raw ELSE s.alt
      exit == ev.op \in {"exitraw", "exitalt", "show"}
      rules == << <<T4, "no mode is entered twice", enter => ~on \/ mode \in s.endfail \union s.exitbad>>,
                  <<T4, "no mode is left that was not entered", ev.op \in {"exitraw", "exitalt"} => on>>,
                  <<T4, "no mode is entered by an ended program", enter /\ ev.ok => s.run = "up" \/ mode \in s.endfail>>,
                  <<T5, "the terminal stays normal while somebody else owns it", Owned(s) /\ ev.ok => ~enter /\ ev.op # "hide">> >>
      s1 == IF ev.ok
            THEN LET s0 == [s EXCEPT !.exitbad = @ \ {mode}] IN
                 CASE ev.op = "enterraw" -> [s0 EXCEPT !.raw = TRUE, !.endfail = @ \ {"raw"}]
                   [] ev.op = "exitraw" -> [s0 EXCEPT !.raw = FALSE, !.endfail = @ \ {"raw"}]
                   [] ev.op = "enteralt" -> [s0 EXCEPT !.alt = TRUE, !.endfail = @ \ {"alt"}]
                   [] ev.op = "exitalt" -> [s0 EXCEPT !.alt = FALSE, !.endfail = @ \ {"alt"}]
                   [] ev.op = "hide" -> [s0 EXCEPT !.vis = FALSE, !.endfail = @ \ {"vis"}]
                   [] ev.op = "show" -> [s0 EXCEPT !.vis = TRUE]
                   [] OTHER -> s
            ELSE s
      \* a planned failure excuses the end of the run only if it hit the end's own attempt
      nostart == ev.op = "enteralt" /\ ~ev.ok /\ ~s.inited
      \* a mode that could not be left before is in the way now
      inway == ~ev.ok /\ mode \in s.exitbad
      s2 == IF ~ev.inj THEN [s1 EXCEPT !.cause = @ \/ nostart, !.must = @ \/ nostart,
                                        !.calls = {IF inway /\ c.op \in TtyOps THEN [c EXCEPT !.inj = @ + 1] ELSE c : c \in s.calls}]
            ELSE [s1 EXCEPT !.everinj = TRUE, !.exitbad = IF exit THEN @ \union {mode} ELSE @,
                            !.endfail = IF exit /\ (TtyCalls(s) = {} \/ s.cause) THEN @ \union {mode} ELSE @,
                            !.cause = @ \/ nostart,
                            !.must = @ \/ nostart,
                            !.calls = {IF c.op \in TtyOps THEN [c EXCEPT !.inj = @ + (IF ev.op \in {"hide", "show"} THEN 0 ELSE 1)] ELSE c : c \in s.calls}]
  IN R(s, rules, s2)

(* ------------------------------------------------------------------ nothing more to expect *)
Quiet(s0, ev) ==
  LET s == IF s0.susp = "maybe" /\ TtyCalls(s0) = {} /\ ~s0.starting /\ s0.run = "up" /\ ~s0.cause
           THEN [s0 EXCEPT !.susp = IF ev.susp THEN "yes" ELSE "no"] ELSE s0
      live == s.run = "up" /\ ~Must(s)
      free == live /\ s.phase = "none"
      calm == free /\ s.susp = "no" /\ TtyCalls(s) = {}
      rules == << <<T3, "a quit request ends the program", ~(s.run = "up" /\ Must(s) /\ s.phase = "none")>>,
                  <<T3, "the program starts", free => s.inited>>,
                  <<{"T01"}, "every accepted message is handled", free => s.okd \subseteq s.handled \union s.stale>>,
                  <<{"T01"}, "every key is handled", free /\ ~s.off => s.fed \subseteq s.kh>>,
                  <<{"T01", "T02"}, "every result is handled", free => \A r \in s.sched : Complete(s, r) => \A l \in OfRoot(s, r) : Silent(s, l) \/ l \in s.lh>>,
                  <<{"T02"}, "every command runs", live => \A l \in Leaves(s) : s.cfg.leaf[l].root \in s.sched /\ s.cfg.leaf[l].pre \subseteq s.ld => l \in s.lb>>,
                  <<{"T07"}, "the current model is shown", calm => s.lastv = s.ver /\ ~s.redraw>>,
                  <<T5, "the program draws again after Resume", calm => ~s.redraw>>,
                  <<T5, "the terminal is normal while suspended", s.susp = "yes" => (~s.raw \/ "raw" \in s.exitbad) /\ (~s.alt \/ "alt" \in s.exitbad)>>,
                  <<T4, "the modes asked for are on", calm /\ ~s.cfg.fails => s.raw /\ s.alt = s.cfg.alt>> >>
  IN IF ~ev.running /\ s.run = "up" THEN Over(s, <<>>) ELSE R(s, rules, s)

Final(s, ev) ==
  R(s, << <<T3, "every call returns", ev.allret>>,
          <<{"T02"}, "what has begun runs to its end",
             ev.allret => \A r \in {s.cfg.leaf[l].root : l \in s.lb} \ {"none"} : OfRoot(s, r) \subseteq s.lb>>,
          <<T3, "the program has ended", s.run = "idle" /\ ~ev.running>>,
          <<T4, "raw mode left", ~s.raw \/ "raw" \in s.endfail>>,
          <<T4, "alternate screen left", ~s.alt \/ "alt" \in s.endfail>>,
          <<T4, "cursor visible", s.vis \/ "vis" \in s.endfail \/ s.starts = 0>> >>, s)

Succ(s, ev) ==
  CASE ev.k = "call" -> CallEv(s, ev)
    [] ev.k = "ret" -> RetEv(s, ev)
    [] ev.k = "ended" -> Over(s, <<>>)
    [] ev.k = "ibegin" -> R(s, Model(s, ev, "init") \o << <<{"T01"}, "Init runs once", ~s.inited>> >>, [s EXCEPT !.phase = "init", !.starting = FALSE])
    [] ev.k = "iend" -> {Sched([s EXCEPT !.phase = "none", !.inited = TRUE], ev)}
    [] ev.k = "ubegin" -> UBegin(s, ev)
    [] ev.k = "uend" -> {Sched([s EXCEPT !.phase = "none", !.ver = ev.ver], ev)}
    [] ev.k = "upanic" -> {[Cause(s) EXCEPT !.phase = "none", !.panicked = TRUE]}
    [] ev.k = "vbegin" -> R(s, Model(s, ev, "view"), [s EXCEPT !.phase = "view"])
    [] ev.k = "vend" -> {[s EXCEPT !.phase = "none", !.lastv = ev.ver]}
    [] ev.k = "key" -> {[s EXCEPT !.fed = @ \union {ev.n}]}
    [] ev.k = "cbegin" ->
         R(s, << <<{"T02"}, "a command runs once", ev.l \notin s.lb>>,
                 <<{"T02"}, "only returned commands run", s.cfg.leaf[ev.l].root \in s.sched \union s.old \union (IF s.phase \in {"init", "update"} THEN {s.cfg.leaf[ev.l].root} ELSE {})>>,
                 <<{"T02"}, "a Sequence runs its commands one after another", s.cfg.leaf[ev.l].pre \subseteq s.ld>> >>,
           [s EXCEPT !.lb = @ \union {ev.l}])
    [] ev.k = "cend" -> LET s1 == [s EXCEPT !.ld = @ \union {ev.l}]
                        IN {IF s.cfg.leaf[ev.l].kind = "quit" THEN Cause(s1) ELSE s1}
    [] ev.k = "term" -> TermEv(s, ev)
    [] ev.k = "write" ->
         R(s, << <<T5, "nothing is written while somebody else owns the terminal", ~Owned(s)>>,
                 <<T3, "nothing is drawn after the end", s.run = "up" \/ s.starts = 0>> >>, [s EXCEPT !.redraw = FALSE])
    [] ev.k = "xalive" ->
         R(s, << <<T5, "the external process gets a normal terminal",
                     \A c \in s.calls : c.id = ev.id /\ ~c.mix => IsOff(s, c)>> >>,
           [s EXCEPT !.alive = @ \union {ev.id}, !.redraw = @ \/ (s.run = "up" /\ \E c \in s.calls : c.id = ev.id /\ c.clean /\ c.susp = "no")])
    [] ev.k = "xexit" -> {[s EXCEPT !.alive = @ \ {ev.id}]}
    [] ev.k = "quiet" -> Quiet(s, ev)
    [] ev.k = "final" -> Final(s, ev)
    [] OTHER -> {s}
============================================================================

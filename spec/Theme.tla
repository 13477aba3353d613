------------------------------- MODULE Theme -------------------------------
(* Themes as values, and the manager of the current one.  A theme is [n: name, c: 13 colours, b: 5
   borders, s: 5 spacings, t: 4 colours of typography]; colour 0 (black), border "" and spacing <= 0
   count as not set.                                                                               *)
EXTENDS Base

Pick(base, over, set(_)) == [k \in 1..Len(base) |-> IF set(over[k]) THEN over[k] ELSE base[k]]
Merge(a, b) == [n |-> b.n,
                c |-> Pick(a.c, b.c, LAMBDA x : x # 0), b |-> Pick(a.b, b.b, LAMBDA x : x # ""),
                s |-> Pick(a.s, b.s, LAMBDA x : x > 0), t |-> Pick(a.t, b.t, LAMBDA x : x # 0)]

\* cfg.names: what every spelling of a name means: index of a preset or 0
\* all: every theme the program has got hold of, in order; cur: the manager's; said: the last answer
Init0(cfg) == [presets |-> cfg.presets, names |-> cfg.names, all |-> <<cfg.first>>, cur |-> cfg.first, said |-> TRUE]
Gets(s, t) == [s EXCEPT !.all = Append(@, t), !.said = TRUE]
Apply(s, op) ==
  CASE op.k = "new"   -> Gets(s, op.t)
    [] op.k = "with"  -> Gets(s, [s.all[op.i] EXCEPT ![op.f] = op.v])
    [] op.k = "merge" -> Gets(s, Merge(s.all[op.i], s.all[op.j]))
    [] op.k = "named" -> LET p == s.names[op.n] IN IF p = 0 THEN [s EXCEPT !.said = FALSE] ELSE Gets(s, s.presets[p])
    [] op.k = "preset" -> Gets(s, s.presets[op.p])
    [] op.k = "mget"  -> Gets(s, s.cur)
    [] op.k = "mset"  -> [Gets(s, s.cur) EXCEPT !.cur = s.all[op.i]]
    [] op.k = "mnil"  -> Gets(s, s.cur)
    [] op.k = "mmerge" -> [s EXCEPT !.cur = Merge(@, s.all[op.i]), !.said = TRUE]
    [] op.k = "mpreset" -> LET p == s.names[op.n] IN IF p = 0 THEN [s EXCEPT !.said = FALSE] ELSE [s EXCEPT !.cur = s.presets[p], !.said = TRUE]
    [] op.k = "mreset" -> [s EXCEPT !.cur = s.presets[1], !.said = TRUE]
Obs(s) == [all |-> s.all, cur |-> s.cur, said |-> s.said]

\* merging keeps every field of the override that is set and never unsets one
Inv(s) ==
  \A i, j \in 1..MaxOf(0, IF Len(s.all) < 3 THEN Len(s.all) ELSE 3) :
    LET m == Merge(s.all[i], s.all[j]) IN
    /\ \A k \in 1..13 : (s.all[j].c[k] # 0 => m.c[k] = s.all[j].c[k]) /\ (m.c[k] = 0 <=> s.all[i].c[k] = 0 /\ s.all[j].c[k] = 0)
    /\ Merge(m, s.all[j]) = m
    /\ i = j => m = s.all[i]
\* nothing the program has got hold of ever changes
StepOk(s, op, s2) == Len(s2.all) >= Len(s.all) /\ SubSeq(s2.all, 1, Len(s.all)) = s.all

Th(n, c, b, x, t) == [n |-> n, c |-> [k \in 1..13 |-> IF k % 2 = 1 THEN c ELSE 0], b |-> [k \in 1..5 |-> IF k = 2 THEN "" ELSE b], s |-> <<x, 0, -1, x + 1, 3>>, t |-> <<t, 0, t, 1>>]
Cfgs == {[presets |-> <<Th("P", 5, "thick", 2, 3), Th("Q", 0, "", 0, 0)>>, names |-> <<1, 2, 0>>, first |-> f, model |-> TRUE] : f \in {Th("A", 1, "ascii", 1, 0), Th("", 0, "", 0, 7)}}
Ops(s) ==
  {[k |-> "new", t |-> Th("B", 9, "own", 0, 4)]} \cup {[k |-> "with", i |-> Len(s.all), f |-> "n", v |-> "Z"], [k |-> "with", i |-> 1, f |-> "s", v |-> <<0, 0, 1, 0, 0>>]}
  \cup {[k |-> "merge", i |-> 1, j |-> Len(s.all)]} \cup {[k |-> "named", n |-> n] : n \in 1..3} \cup {[k |-> "mget"], [k |-> "mnil"], [k |-> "mreset"]}
  \cup {[k |-> x, i |-> i] : x \in {"mset", "mmerge"}, i \in {1, Len(s.all)}} \cup {[k |-> "mpreset", n |-> n] : n \in 2..3}

(* ---- concurrent use: histories of calls and returns of several goroutines.  A state of the judge is
   the current theme together with what the calls under way have been answered (if they have happened). *)
Idle == [k |-> ""]
InitSet(cfg) == {[cur |-> cfg.first, presets |-> cfg.presets, under |-> [g \in 1..cfg.gs |-> Idle]]}
Does(s, g) ==   \* the call of g takes effect now
  LET op == s.under[g].op
      said == [k |-> "done", t |-> s.cur]
  IN [s EXCEPT !.under[g] = said,
               !.cur = CASE op.k = "mget" -> @ [] op.k = "mset" -> op.t [] op.k = "mmerge" -> Merge(@, op.t)
                          [] op.k = "mreset" -> s.presets[1] [] op.k = "mpreset" -> s.presets[op.p]]
Waiting(s) == {g \in DOMAIN s.under : s.under[g].k = "called"}
RECURSIVE Ways(_)
Ways(S) == LET T == S \cup UNION {{Does(s, g) : g \in Waiting(s)} : s \in S} IN IF T = S THEN S ELSE Ways(T)
Succ(s, ev) ==
  IF ev.k = "call" THEN {[s EXCEPT !.under[ev.g] = [k |-> "called", op |-> ev.op]]}
  ELSE {[w EXCEPT !.under[ev.g] = Idle] :
         w \in {w \in Ways({s}) : w.under[ev.g].k = "done" /\ (ev.has => w.under[ev.g].t = ev.t)}}
============================================================================

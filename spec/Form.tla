-------------------------------- MODULE Form --------------------------------
(* A form: named fields with validators, one of them focused. Texts are strings of one-unit characters. *)
EXTENDS Base

Init0(cfg) == [title |-> cfg.title, fs |-> <<>>, foc |-> 1, out |-> "none"]

Updates == {"own", "ptr", "iface", "choice", "anychoice", "input"}
\* what validators are given: a text, nothing, or something that is no text
Held(f) == CASE f.kind \in {"own", "ptr", "iface", "input", "strange"} -> <<"text", f.v>>
             [] f.kind \in {"choice", "anychoice"} -> IF f.v = "" THEN <<"nil", "">> ELSE <<"text", f.v>>
             [] OTHER -> <<"thing", "">>

Ch(s, k) == SubSeq(s, k, k)
Chars(s) == {Ch(s, k) : k \in 1..Len(s)}
Letters == {"a", "b", "c", "d", "x", "Z"}
\* one "@", a local part, and a domain whose last dot is followed by two letters or more
IsEmail(s) == \E at \in 2..Len(s) : \E dot \in (at + 2)..(Len(s) - 2) :
  /\ Ch(s, at) = "@" /\ Ch(s, dot) = "."
  /\ Chars(SubSeq(s, 1, at - 1)) \subseteq Letters \cup {"0", ".", "_", "%", "+", "-"}
  /\ Chars(SubSeq(s, at + 1, dot - 1)) \subseteq Letters \cup {"0", ".", "-"}
  /\ Chars(SubSeq(s, dot + 1, Len(s))) \subseteq Letters
Type == <<"invalid type (expected string)">>
Say(bad, what) == IF bad THEN <<what>> ELSE <<>>
Check(x, h) ==
  IF x.t = "required" THEN Say(h[1] = "nil" \/ (h[1] = "text" /\ Chars(h[2]) \subseteq {" ", "\t"}), "required")
  ELSE IF x.t = "even" THEN Say(~(h[1] = "text" /\ (Len(h[2]) % 2) = 0), "odd")
  ELSE IF h[1] # "text" THEN Type
  ELSE CASE x.t = "min" -> Say(Len(h[2]) < x.n, "must be at least " \o ToString(x.n) \o " characters")
         [] x.t = "max" -> Say(Len(h[2]) > x.n, "must be at most " \o ToString(x.n) \o " characters")
         [] x.t = "email" -> Say(~IsEmail(h[2]), "invalid email format")
         [] x.t = "pattern" -> Say(h[2] = "" \/ ~(Chars(h[2]) \subseteq {"a", "b"}), "invalid format")
Validate(f) == [f EXCEPT !.errs = Cat([k \in 1..Len(f.vs) |-> Check(f.vs[k], Held(f))])]
Valid(s) == \A k \in 1..Len(s.fs) : s.fs[k].errs = <<>>

\* what a field does with a message of its own
Typed(v, op) ==
  IF op.k = "key" /\ op.key = "rune" THEN v \o op.ch
  ELSE IF op.k = "key" /\ op.key = "backspace" THEN (IF v = "" THEN "!" ELSE SubSeq(v, 1, Len(v) - 1))
  ELSE v \o "?"
InputTyped(v, op) ==
  IF op.k = "key" /\ op.key = "rune" THEN v \o op.ch
  ELSE IF op.k = "key" /\ op.key = "backspace" /\ v # "" THEN SubSeq(v, 1, Len(v) - 1)
  ELSE v
Deliver(s, op) ==
  IF s.fs = <<>> \/ s.fs[s.foc].kind \notin Updates THEN s
  ELSE LET f == s.fs[s.foc]
           v == IF f.kind = "input" THEN InputTyped(f.v, op) ELSE Typed(f.v, op)
           cmd == f.kind # "input" /\ op.k = "key" /\ op.key = "rune" /\ op.ch = "c"
       IN [s EXCEPT !.fs[s.foc].v = v, !.fs[s.foc].dirty = TRUE, !.out = IF cmd THEN "field " \o v ELSE @]
Leave(s, d) == IF s.fs = <<>> THEN s
               ELSE [s EXCEPT !.fs[s.foc].touched = TRUE, !.foc = ((@ - 1 + d + Len(s.fs)) % Len(s.fs)) + 1]
Submit(s) == LET t == [s EXCEPT !.fs = [k \in 1..Len(s.fs) |-> Validate(s.fs[k])]]
             IN [t EXCEPT !.out = IF Valid(t) THEN "submit" ELSE @]
KeyAct(s, op) ==
  CASE op.key = "tab" -> Leave(s, 1)
    [] op.key = "shift+tab" -> Leave(s, -1)
    [] op.key = "enter" -> Submit(s)
    [] op.key \in {"esc", "ctrl+c"} -> [s EXCEPT !.out = "quit"]
    [] OTHER -> Deliver(s, op)
NewField(op) == [name |-> op.name, label |-> op.label, kind |-> op.kind, v |-> op.v, vs |-> op.vs,
                 errs |-> <<>>, touched |-> FALSE, dirty |-> FALSE]
Apply0(s, op) ==
  CASE op.k = "key" -> KeyAct(s, op)
    [] op.k = "field" -> [s EXCEPT !.fs = Append(@, NewField(op))]
    [] op.k = "branch" -> s
    [] op.k = "init" -> [s EXCEPT !.out = IF \E k \in 1..Len(s.fs) : s.fs[k].kind = "own" THEN "some" ELSE @]
    [] OTHER -> Deliver(s, op)
Apply(s, op) == Apply0([s EXCEPT !.out = "none"], op)

Shown(s, k) ==
  LET f == s.fs[k] IN
  (IF k > 1 THEN <<"">> ELSE <<>>) \o
  <<f.label \o ":" \o (IF k = s.foc THEN " < focused" ELSE ""), IF f.kind = "input" THEN f.v ELSE "<" \o f.v \o ">">> \o
  (IF f.errs # <<>> THEN [j \in 1..Len(f.errs) |-> "X " \o f.errs[j]]
   ELSE IF f.touched THEN <<"V Valid">> ELSE <<>>)
Obs(s) == [vals |-> [k \in 1..Len(s.fs) |-> <<IF s.fs[k].kind = "input" THEN s.fs[k].v ELSE "<" \o s.fs[k].v \o ">">>],
           errs |-> [k \in 1..Len(s.fs) |-> s.fs[k].errs],
           valid |-> Valid(s), dirty |-> (\E k \in 1..Len(s.fs) : s.fs[k].dirty),
           title |-> s.title, rule |-> TW(s.title),
           shown |-> IF s.fs = <<>> THEN <<"">> ELSE Cat([k \in 1..Len(s.fs) |-> Shown(s, k)]),
           out |-> s.out, frozen |-> TRUE]

Inv(s) == /\ s.fs = <<>> => s.foc = 1
          /\ s.fs # <<>> => s.foc \in 1..Len(s.fs)
          /\ s.out = "submit" => \A k \in 1..Len(s.fs) : Validate(s.fs[k]).errs = <<>>
\* only submitting changes what is reported, and it reports on every field
StepOk(s, op, s2) ==
  LET n == Len(s.fs) IN
  /\ (op.k # "field" /\ ~(op.k = "key" /\ op.key = "enter")) => \A k \in 1..n : s2.fs[k].errs = s.fs[k].errs
  /\ (op.k = "key" /\ op.key = "enter") =>
        /\ \A k \in 1..n : s2.fs[k] = Validate(s.fs[k])
        /\ (s2.out = "submit") = (\A k \in 1..n : Validate(s.fs[k]).errs = <<>>)
  /\ Cardinality({k \in 1..n : s2.fs[k].v # s.fs[k].v}) <= 1
  /\ \A k \in 1..n : s2.fs[k].v # s.fs[k].v => k = s.foc

K(x) == [k |-> "key", key |-> x]
F(n, kind, vs) == [k |-> "field", name |-> n, label |-> n, kind |-> kind, v |-> "", vs |-> vs]
Ops(s) == {K("tab"), K("shift+tab"), K("enter"), K("backspace"), K("esc")}
          \cup {[k |-> "key", key |-> "rune", ch |-> x] : x \in {"a", "c"}}
          \cup (IF Len(s.fs) = 0 THEN {F("n", "own", <<[t |-> "required"], [t |-> "min", n |-> 2]>>), F("n", "choice", <<[t |-> "required"]>>)}
                ELSE IF Len(s.fs) = 1 THEN {F("m", "input", <<[t |-> "even"], [t |-> "max", n |-> 1]>>), F("m", "plain", <<[t |-> "required"]>>)}
                ELSE IF Len(s.fs) = 2 THEN {F("o", "iface", <<>>)} ELSE {})
Cfgs == {[title |-> <<>>]}
=============================================================================

-------------------------------- MODULE Mock --------------------------------
(* The recording (mock) and the do-nothing (null) terminal of package testing.  A call is
   <<method, integer arguments, text argument>>.                                                   *)
EXTENDS Base

Init0(cfg) == [null |-> cfg.null, alt |-> FALSE, raw |-> FALSE, calls |-> <<>>, err |-> FALSE, val |-> <<>>, cnt |-> 0]

B2(b) == IF b THEN 1 ELSE 0
\* what a query answers
Val(s, op) ==
  CASE op.m = "IsInAltScreen" -> <<B2(s.alt)>>
    [] op.m = "IsInRawMode" -> <<B2(s.raw)>>
    [] op.m = "Size" -> <<80, 24>>
    [] op.m = "ColorDepth" -> <<256>>
    [] op.m \in {"SupportsDirectPositioning", "SupportsReadback"} -> <<0>>
    [] op.m = "SupportsTrueColor" -> <<1>>
    [] op.m = "Platform" -> <<0>>
    [] op.m = "GetCursorPosition" -> <<0, 0>>
    [] OTHER -> <<>>
Err(s, op) ==
  CASE s.null -> FALSE
    [] op.m = "EnterAltScreen" -> s.alt
    [] op.m = "ExitAltScreen" -> ~s.alt
    [] op.m = "EnterRawMode" -> s.raw
    [] op.m = "ExitRawMode" -> ~s.raw
    [] OTHER -> FALSE
Mode(s, op) ==
  IF s.null THEN s
  ELSE CASE op.m = "EnterAltScreen" -> [s EXCEPT !.alt = TRUE]
         [] op.m = "ExitAltScreen" -> [s EXCEPT !.alt = FALSE]
         [] op.m = "EnterRawMode" -> [s EXCEPT !.raw = TRUE]
         [] op.m = "ExitRawMode" -> [s EXCEPT !.raw = FALSE]
         [] OTHER -> s
Call(op) == <<op.m, op.a, op.txt>>
Apply(s, op) ==
  CASE op.k = "reset" -> [s EXCEPT !.calls = <<>>, !.err = FALSE, !.val = <<>>, !.cnt = 0]
    [] op.k = "count" -> [s EXCEPT !.err = FALSE, !.val = <<>>, !.cnt = Len(SelectSeq(s.calls, LAMBDA c : c[1] = op.m))]
    [] OTHER -> LET s2 == Mode(s, op)
                IN [s2 EXCEPT !.err = Err(s, op), !.val = Val(s, op), !.cnt = 0,
                              !.calls = IF s.null THEN <<>> ELSE Append(@, Call(op))]
Obs(s) == [calls |-> s.calls, err |-> s.err, val |-> s.val, cnt |-> s.cnt, wrote |-> FALSE]
Inv(s) == s.null => s.calls = <<>>
StepOk(s, op, s2) == op.k = "call" => (Len(s2.calls) = Len(s.calls) + B2(~s.null))

(* -------- concurrent callers: the recorded calls are one interleaving of what the callers did ---- *)
\* cfg.threads: per caller the sequence of [m, a, txt, err, val] it made and what it got back
InitSet(cfg) == {[th |-> cfg.threads, pos |-> [i \in 1..Len(cfg.threads) |-> 1], st |-> Init0([null |-> FALSE])]}
Succ(x, ev) ==
  IF ev.k = "end" THEN IF \A i \in 1..Len(x.th) : x.pos[i] > Len(x.th[i]) THEN {x} ELSE {}
  ELSE {[x EXCEPT !.pos[i] = @ + 1, !.st = Mode(x.st, x.th[i][x.pos[i]])] :
          i \in {j \in 1..Len(x.th) :
                   /\ x.pos[j] <= Len(x.th[j])
                   /\ LET o == x.th[j][x.pos[j]] IN
                      Call(o) = <<ev.m, ev.a, ev.txt>> /\ o.err = Err(x.st, o) /\ o.val = Val(x.st, o)}}

(* ------------------------------------------------------------------ small scope *)
Cfgs == {[null |-> FALSE], [null |-> TRUE]}
Ops(s) ==
  {[k |-> "call", m |-> m, a |-> <<>>, txt |-> <<>>] :
      m \in {"EnterAltScreen", "ExitAltScreen", "EnterRawMode", "ExitRawMode", "IsInAltScreen", "IsInRawMode", "Clear"}}
  \cup {[k |-> "call", m |-> "MoveCursorUp", a |-> <<2>>, txt |-> <<>>], [k |-> "reset"], [k |-> "count", m |-> "Clear"]}
=============================================================================

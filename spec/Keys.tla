-------------------------------- MODULE Keys --------------------------------
(* How terminal input bytes become key messages.  The decoder is a byte machine: its result cannot
   depend on how the bytes are split over reads.  Only a pause can: it ends a lone ESC.
   A key is <<type, rune, alt, ctrl>>.  Events: chunk (bytes that arrived in one read, pause = nothing
   more arrived for a long while), keys (all key messages the program received).                     *)
EXTENDS Base

K(t) == <<t, 0, FALSE, FALSE>>
R(c) == <<"rune", c, FALSE, FALSE>>
AltR(c) == <<"rune", c, TRUE, FALSE>>
CtrlR(c) == <<"rune", c, FALSE, TRUE>>
None == <<"none", 0, FALSE, FALSE>>

Plain(b) ==
  CASE b \in {10, 13} -> K("enter")
    [] b \in {8, 127} -> K("backspace")
    [] b = 9 -> K("tab")
    [] b = 27 -> K("esc")
    [] b = 32 -> K("space")
    [] b \in 1..26 -> CtrlR(96 + b)
    [] b \in 33..126 -> R(b)
    [] OTHER -> None
\* parameters and final byte of ESC [ ...
CsiTable == {
  <<<<65>>, "up">>, <<<<66>>, "down">>, <<<<67>>, "right">>, <<<<68>>, "left">>, <<<<72>>, "home">>, <<<<70>>, "end">>,
  <<<<49, 126>>, "home">>, <<<<50, 126>>, "insert">>, <<<<51, 126>>, "delete">>, <<<<52, 126>>, "end">>,
  <<<<53, 126>>, "pgup">>, <<<<54, 126>>, "pgdown">>,
  <<<<49, 53, 126>>, "f5">>, <<<<49, 55, 126>>, "f6">>, <<<<49, 56, 126>>, "f7">>, <<<<49, 57, 126>>, "f8">>,
  <<<<50, 48, 126>>, "f9">>, <<<<50, 49, 126>>, "f10">>, <<<<50, 51, 126>>, "f11">>, <<<<50, 52, 126>>, "f12">>}
Ss3Table == {<<80, "f1">>, <<81, "f2">>, <<82, "f3">>, <<83, "f4">>}
Find(tab, x) == LET m == {e \in tab : e[1] = x} IN IF m = {} THEN None ELSE K((CHOOSE e \in m : TRUE)[2])

Emit1(s, k) == [s EXCEPT !.out = IF k = None THEN @ ELSE Append(@, k), !.m = "ground", !.acc = <<>>, !.alt = FALSE]
Lead(b) == IF b < 224 THEN <<2, b % 32>> ELSE IF b < 240 THEN <<3, b % 16>> ELSE <<4, b % 8>>

\* something else ends what has begun: ESC is a key, ESC [ and ESC O are Alt and a character, a longer piece is nothing
Cut(s) ==
  Emit1(s, CASE s.m = "esc" -> K("esc")
             [] s.m = "csi" -> IF s.acc = <<>> THEN AltR(91) ELSE None
             [] OTHER -> AltR(79))

RECURSIVE Byte(_, _)
Byte(s, b) ==
  CASE s.m = "ground" ->
        IF b = 27 THEN [s EXCEPT !.m = "esc"]
        ELSE IF b < 128 THEN Emit1(s, Plain(b))
        ELSE [s EXCEPT !.m = "utf8", !.acc = <<Lead(b)[1] - 1, Lead(b)[2]>>]
    [] s.m = "utf8" ->
        LET v == s.acc[2] * 64 + (b % 64) IN
        IF s.acc[1] = 1 THEN Emit1(s, IF s.alt THEN AltR(v) ELSE R(v)) ELSE [s EXCEPT !.acc = <<@[1] - 1, v>>]
    [] s.m = "esc" ->
        IF b = 91 THEN [s EXCEPT !.m = "csi", !.acc = <<>>]
        ELSE IF b = 79 THEN [s EXCEPT !.m = "ss3"]
        ELSE IF b \in 33..126 THEN Emit1(s, AltR(b))
        ELSE IF b >= 128 THEN [s EXCEPT !.m = "utf8", !.acc = <<Lead(b)[1] - 1, Lead(b)[2]>>, !.alt = TRUE]
        ELSE Byte(Cut(s), b)
    [] s.m = "csi" ->
        IF b \in 64..126 THEN Emit1(s, Find(CsiTable, Append(s.acc, b)))
        ELSE IF b \in 32..63 THEN [s EXCEPT !.acc = Append(@, b)]
        ELSE Byte(Cut(s), b)
    [] s.m = "ss3" -> IF b \in 32..126 THEN Emit1(s, Find(Ss3Table, b)) ELSE Byte(Cut(s), b)
Pause(s) == IF s.m \in {"esc", "csi", "ss3"} THEN Cut(s) ELSE s
Start == [out |-> <<>>, m |-> "ground", acc |-> <<>>, alt |-> FALSE]
Chunk(s, ev) == LET t == FoldLeft(Byte, s, ev.b) IN IF ev.pause THEN Pause(t) ELSE t

(* ------------------------------------------------- the text of a message: what applications switch on *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz"
CodeTab == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
Txt(w) == [i \in 1..Len(w) |-> CodeTab[SubSeq(w, i, i)]]
Special == {<<"up", <<8593>>>>, <<"down", <<8595>>>>, <<"left", <<8592>>>>, <<"right", <<8594>>>>,
  <<"f1", <<70, 49>>>>, <<"f2", <<70, 50>>>>, <<"f3", <<70, 51>>>>, <<"f4", <<70, 52>>>>, <<"f5", <<70, 53>>>>, <<"f6", <<70, 54>>>>, <<"f7", <<70, 55>>>>,
  <<"f8", <<70, 56>>>>, <<"f9", <<70, 57>>>>, <<"f10", <<70, 49, 48>>>>, <<"f11", <<70, 49, 49>>>>, <<"f12", <<70, 49, 50>>>>}
PlainNames == {"enter", "backspace", "tab", "esc", "space", "home", "end", "pgup", "pgdown", "delete", "insert"}
NameTab == [t \in {e[1] : e \in Special} |-> (CHOOSE e \in Special : e[1] = t)[2]] @@ [t \in PlainNames |-> Txt(t)]
AltT == Txt("alt+")
CtrlT == Txt("ctrl+")
ShiftT == Txt("shift+")
CtrlCT == Txt("ctrl+c")
KeyName(t, r, alt, ctrl, shift) ==
  IF t = "ctrlc" THEN CtrlCT
  ELSE (IF alt THEN AltT ELSE <<>>) \o (IF ctrl THEN CtrlT ELSE <<>>) \o (IF shift /\ t # "rune" THEN ShiftT ELSE <<>>)
       \o (IF t = "rune" THEN <<r>> ELSE NameTab[t])
Name(k) == KeyName(k[1], k[2], k[3], k[4], FALSE)

RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
BtnT == [b \in {"none", "left", "middle", "right", "wheelup", "wheeldown"} |->
  Txt(CASE b = "none" -> "mouse" [] b = "wheelup" -> "wheel up" [] b = "wheeldown" -> "wheel down" [] OTHER -> b)]
MouseName(ev) ==
  BtnT[ev.btn] \o (IF ev.btn \in {"wheelup", "wheeldown"} THEN <<>> ELSE <<32>> \o Txt(ev.act))
  \o Txt(" at (") \o Dec(ev.x) \o Txt(", ") \o Dec(ev.y) \o <<41>>
SizeName(ev) == Txt("window resize: ") \o Dec(ev.w) \o Txt("x") \o Dec(ev.h)

InitSet(cfg) == {Start}
Only(s, c) == IF c THEN {s} ELSE {}
Succ(s, ev) ==
  CASE ev.k = "chunk" -> {Chunk(s, ev)}
    [] ev.k = "keyname" -> Only(s, ev.name = KeyName(ev.t, ev.r, ev.alt, ev.ctrl, ev.shift))
    [] ev.k = "mousename" -> Only(s, ev.name = MouseName(ev))
    [] ev.k = "sizename" -> Only(s, ev.name = SizeName(ev) /\ ev.valid = (ev.w > 0 /\ ev.h > 0))
    [] OTHER -> Only(s, ev.keys = s.out /\ ev.names = [i \in 1..Len(s.out) |-> Name(s.out[i])])

(* ------------------------------------------------- design check: what is encoded is what is decoded *)
RECURSIVE EncU(_)
EncU(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
KeySet ==
  {<<K("enter"), <<13>>>>, <<K("backspace"), <<127>>>>, <<K("tab"), <<9>>>>, <<K("space"), <<32>>>>, <<CtrlR(99), <<3>>>>, <<CtrlR(122), <<26>>>>}
  \cup {<<R(c), EncU(c)>> : c \in {33, 65, 91, 79, 126, 49, 233, 1078, 8364, 19990, 65532, 128512}}
  \cup {<<AltR(c), <<27>> \o EncU(c)>> : c \in {98, 49, 1078}}
  \cup {<<K(e[2]), <<27, 91>> \o e[1]>> : e \in CsiTable} \cup {<<K(e[2]), <<27, 79, e[1]>>>> : e \in Ss3Table}
  \cup {<<None, q>> : q \in {<<27, 91, 49, 59, 53, 67>>, <<27, 91, 60, 48, 59, 49, 50, 51, 59, 52, 53, 54, 77>>, <<27, 91, 90>>, <<27, 79, 113>>, <<0>>,
                              <<27, 91, 51, 51, 51, 59, 52, 52, 52, 59, 53, 53, 53, 63, 33, 36, 121>>}}
Cfgs == {[small |-> TRUE]}
Init0(cfg) == [d |-> Start, want |-> <<>>]
Ops(s) == {[k |-> "chunk", b |-> e[2], pause |-> FALSE, key |-> e[1]] : e \in KeySet} \cup {[k |-> "chunk", b |-> <<27>>, pause |-> TRUE, key |-> K("esc")]}
Apply(s, op) == [d |-> Chunk(s.d, op), want |-> IF op.key = None THEN s.want ELSE Append(s.want, op.key)]
Inv(s) == s.d.out = s.want /\ s.d.m = "ground"
\* and any split into reads gives the same
StepOk(s, op, s2) == op.pause \/ \A n \in 1..Len(op.b) :
  Chunk(Chunk(s.d, [b |-> Take(op.b, n), pause |-> FALSE]), [b |-> Drop(op.b, n), pause |-> FALSE]) = s2.d
=============================================================================

---- MODULE RichText ----
(* The clipboard's encodings, read as their receivers read them: HTML as a browser does, RTF as a word
   processor does, the OSC 52 sequence as a terminal does.  Strings are sequences of code points (of bytes
   for OSC 52).  A styled text is a sequence of [c, b, i, u, col] with col = << >> or <<r, g, b>>.

   A case is one operation: op.t the text, op.b, op.i, op.u, op.col the style; the recorded result says what
   the code wrote and what it read back.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Base

Sub(q, a, b) == IF a > b THEN << >> ELSE SubSeq(q, a, b)
IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE Num(_, _)
Num(q, a) == IF q = << >> THEN a ELSE Num(Tail(q), 10 * a + q[1] - 48)
AllDigits(q) == q # << >> /\ Len(q) <= 7 /\ \A j \in 1..Len(q) : IsDigit(q[j])
\* the first place from p on where a character of set S stands (Len(q) + 1 if none)
RECURSIVE Find(_, _, _)
Find(q, p, S) == IF p > Len(q) THEN p ELSE IF q[p] \in S THEN p ELSE Find(q, p + 1, S)
\* "#RRGGBB" as <<r, g, b>>
Colour(q) == IF Len(q) # 7 \/ q[1] # 35 \/ \E j \in 2..7 : HexVal(q[j]) < 0 THEN <<-1>>
             ELSE [j \in 1..3 |-> 16 * HexVal(q[2 * j]) + HexVal(q[2 * j + 1])]

\* ---------------------------------------------------------------------------------------------- HTML
S_strong == <<115, 116, 114, 111, 110, 103>>
S_em == <<101, 109>>
S_span == <<115, 112, 97, 110>>
S_colour == <<32, 115, 116, 121, 108, 101, 61, 34, 99, 111, 108, 111, 114, 58>> \* space style="color:
NoStyle == [b |-> FALSE, i |-> FALSE, u |-> FALSE, col |-> << >>]
\* what an opening tag (its content between < and >) does to the style; "bad" for any other tag
Open(tag, st) ==
  CASE tag \in {S_strong, <<98>>} -> [name |-> tag, st |-> [st EXCEPT !.b = TRUE]]
    [] tag \in {S_em, <<105>>} -> [name |-> tag, st |-> [st EXCEPT !.i = TRUE]]
    [] tag = <<117>> -> [name |-> tag, st |-> [st EXCEPT !.u = TRUE]]
    [] Len(tag) = 26 /\ Sub(tag, 1, 4) = S_span /\ Sub(tag, 5, 18) = S_colour /\ tag[26] = 34 ->
         [name |-> S_span, st |-> [st EXCEPT !.col = Colour(Sub(tag, 19, 25))]]
    [] OTHER -> [name |-> <<0>>, st |-> st]
Entity(e) == \* between & and ;
  CASE e = <<108, 116>> -> 60 [] e = <<103, 116>> -> 62 [] e = <<97, 109, 112>> -> 38 [] e = <<113, 117, 111, 116>> -> 34
    [] Len(e) >= 2 /\ e[1] = 35 /\ AllDigits(Tail(e)) -> Num(Tail(e), 0)
    [] OTHER -> -1
With(c, st) == [c |-> c, b |-> st.b, i |-> st.i, u |-> st.u, col |-> st.col]
Bad == <<[c |-> -1]>>
\* stack: the open elements, each with the style outside it
RECURSIVE Html(_, _, _, _, _)
Html(q, p, st, stack, out) ==
  IF p > Len(q) THEN IF stack = << >> THEN out ELSE Bad
  ELSE IF q[p] = 60 THEN
    LET e == Find(q, p, {62}) tag == Sub(q, p + 1, e - 1) IN
    IF e > Len(q) \/ tag = << >> THEN Bad
    ELSE IF tag[1] = 47 THEN
      IF stack = << >> \/ stack[Len(stack)].name # Tail(tag) THEN Bad
      ELSE Html(q, e + 1, stack[Len(stack)].st, Sub(stack, 1, Len(stack) - 1), out)
    ELSE LET o == Open(tag, st) IN Html(q, e + 1, o.st, Append(stack, [name |-> o.name, st |-> st]), out)
  ELSE IF q[p] = 38 THEN
    LET e == Find(q, p, {59}) v == Entity(Sub(q, p + 1, e - 1)) IN
    IF e > Len(q) \/ v < 0 THEN Bad ELSE Html(q, e + 1, st, stack, Append(out, With(v, st)))
  ELSE Html(q, p + 1, st, stack, Append(out, With(q[p], st)))
ReadHtml(q) == Html(q, 1, NoStyle, << >>, << >>)

\* ---------------------------------------------------------------------------------------------- RTF
W_rtf == <<114, 116, 102>>
W_colortbl == <<99, 111, 108, 111, 114, 116, 98, 108>>
W_red == <<114, 101, 100>>
W_green == <<103, 114, 101, 101, 110>>
W_blue == <<98, 108, 117, 101>>
W_line == <<108, 105, 110, 101>>
W_par == <<112, 97, 114>>
W_tab == <<116, 97, 98>>
RECURSIVE Letters(_, _)
Letters(q, p) == IF p > Len(q) \/ ~IsLetter(q[p]) THEN p ELSE Letters(q, p + 1)
RECURSIVE Digits(_, _)
Digits(q, p) == IF p > Len(q) \/ ~IsDigit(q[p]) THEN p ELSE Digits(q, p + 1)
RGroup == [b |-> FALSE, i |-> FALSE, u |-> FALSE, cf |-> 0, tbl |-> FALSE, uc |-> 1]
\* reader: g the group's state, stack the enclosing groups', tbl the colour table, ent its entry being read,
\* skip characters still to be skipped after \u, high a high surrogate waiting for its partner
Emit(r, unit) ==
  LET col == IF r.g.cf = 0 \/ r.g.cf >= Len(r.tbl) THEN << >> ELSE r.tbl[r.g.cf + 1]
      st == [b |-> r.g.b, i |-> r.g.i, u |-> r.g.u, col |-> col]
  IN IF unit >= 55296 /\ unit <= 56319 THEN [r EXCEPT !.high = unit]
     ELSE IF unit >= 56320 /\ unit <= 57343 THEN
       [r EXCEPT !.high = 0, !.out = Append(@, With(IF r.high = 0 THEN 65533 ELSE 65536 + ((r.high - 55296) * 1024) + (unit - 56320), st))]
     ELSE [r EXCEPT !.out = Append(@, With(unit, st))]
Char(r, c) == IF r.skip > 0 THEN [r EXCEPT !.skip = @ - 1]
  ELSE IF r.g.tbl THEN IF c = 59 THEN [r EXCEPT !.tbl = Append(@, r.ent), !.ent = <<0, 0, 0>>] ELSE r
  ELSE IF c > 65535 THEN [r EXCEPT !.bad = TRUE] ELSE Emit(r, c)
Word(r, w, has, n) == LET on == ~has \/ n # 0 IN
  CASE w = <<98>> -> [r EXCEPT !.g.b = on]
    [] w = <<105>> -> [r EXCEPT !.g.i = on]
    [] w = <<117, 108>> -> [r EXCEPT !.g.u = on]
    [] w = <<99, 102>> -> [r EXCEPT !.g.cf = n]
    [] w \in {W_line, W_par} -> Char(r, 10)
    [] w = W_tab -> Char(r, 9)
    [] w = <<117, 99>> -> [r EXCEPT !.g.uc = n]
    [] w = <<117>> -> IF ~has \/ n > 32767 \/ n < -32768 THEN [r EXCEPT !.bad = TRUE]
                      ELSE [Emit(r, IF n < 0 THEN n + 65536 ELSE n) EXCEPT !.skip = r.g.uc]
    [] w = W_colortbl -> [r EXCEPT !.g.tbl = TRUE]
    [] w = W_red -> [r EXCEPT !.ent[1] = n]
    [] w = W_green -> [r EXCEPT !.ent[2] = n]
    [] w = W_blue -> [r EXCEPT !.ent[3] = n]
    [] OTHER -> r
RECURSIVE Rtf(_, _, _)
Rtf(q, p, r) ==
  IF p > Len(q) \/ r.bad THEN r
  ELSE LET c == q[p] IN
    CASE c = 123 -> Rtf(q, p + 1, [r EXCEPT !.stack = Append(@, r.g), !.skip = 0])
      [] c = 125 -> IF r.stack = << >> THEN [r EXCEPT !.bad = TRUE]
                    ELSE Rtf(q, p + 1, [r EXCEPT !.g = r.stack[Len(r.stack)], !.stack = Sub(@, 1, Len(@) - 1), !.skip = 0])
      [] c \in {10, 13} -> Rtf(q, p + 1, r)
      [] c = 92 /\ p = Len(q) -> [r EXCEPT !.bad = TRUE]
      [] c = 92 /\ q[p + 1] \in {92, 123, 125} -> Rtf(q, p + 2, Char(r, q[p + 1]))
      [] c = 92 /\ ~IsLetter(q[p + 1]) -> [r EXCEPT !.bad = TRUE]
      [] c = 92 -> LET a == Letters(q, p + 1)
                       neg == a <= Len(q) /\ q[a] = 45 /\ Digits(q, a + 1) > a + 1
                       d0 == IF neg THEN a + 1 ELSE a
                       d == Digits(q, d0)
                       n == Num(Sub(q, d0, d - 1), 0)
                   IN Rtf(q, IF d <= Len(q) /\ q[d] = 32 THEN d + 1 ELSE d,
                          Word(r, Sub(q, p + 1, a - 1), d > d0, IF neg THEN -n ELSE n))
      [] OTHER -> Rtf(q, p + 1, Char(r, c))
ReadRtf(q) ==
  IF Sub(q, 1, 5) # <<123, 92>> \o W_rtf THEN Bad
  ELSE LET r == Rtf(q, 1, [g |-> RGroup, stack |-> << >>, tbl |-> << >>, ent |-> <<0, 0, 0>>, skip |-> 0, high |-> 0, out |-> << >>, bad |-> FALSE])
       IN IF r.bad \/ r.stack # << >> \/ r.high # 0 THEN Bad ELSE r.out

\* ---------------------------------------------------------------------------------------------- OSC 52
B64(c) == CASE c >= 65 /\ c <= 90 -> c - 65 [] c >= 97 /\ c <= 122 -> c - 71 [] IsDigit(c) -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
\* the bytes encoded by q[p..]; groups of four characters are independent of one another
Group(q, p) ==
  LET v == [j \in 1..4 |-> B64(q[p + j - 1])] fin == p + 3 = Len(q) a == (v[1] * 4) + (v[2] \div 16) b == ((v[2] % 16) * 16) + (v[3] \div 4) IN
  IF fin /\ q[p + 3] = 61 /\ q[p + 2] = 61 THEN IF v[1] < 0 \/ v[2] < 0 \/ (v[2] % 16) # 0 THEN <<-1>> ELSE <<a>>
  ELSE IF fin /\ q[p + 3] = 61 THEN IF (\E j \in 1..3 : v[j] < 0) \/ (v[3] % 4) # 0 THEN <<-1>> ELSE <<a, b>>
  ELSE IF \E j \in 1..4 : v[j] < 0 THEN <<-1>> ELSE <<a, b, ((v[3] % 4) * 64) + v[4]>>
Unbase(q) ==
  IF (Len(q) % 4) # 0 THEN <<-1>>
  ELSE LET g == [k \in 1..(Len(q) \div 4) |-> Group(q, (4 * k) - 3)]
           n == Len(g)
           len == IF n = 0 THEN 0 ELSE (3 * (n - 1)) + Len(g[n])
       IN IF \E k \in 1..n : k < n /\ Len(g[k]) # 3 THEN <<-1>>
          ELSE [j \in 1..len |-> g[((j - 1) \div 3) + 1][((j - 1) % 3) + 1]]
\* what a terminal puts on its clipboard when it is sent exactly q
Osc52(q) ==
  LET n == Len(q)
      st == n >= 2 /\ q[n - 1] = 27 /\ q[n] = 92
      bel == n >= 1 /\ q[n] = 7
      end == IF st THEN n - 2 ELSE n - 1
  IN IF Sub(q, 1, 7) # <<27, 93, 53, 50, 59, 99, 59>> \/ ~(st \/ bel) THEN <<-1>> ELSE Unbase(Sub(q, 8, end))

\* ---------------------------------------------------------------------------------------------- the trace
\* cfg.kind "html" | "rtf" | "osc"; each op carries the text and style, and what the code did with it (op.out):
\*   enc    the encoding                  dec, db, di, du, dcol   text and style read back from it
\*   conv   the encoding converted to the other format
\*   clip   (through a clipboard) the plain text read, and for html text and style again
NoCR(t) == SelectSeq(t, LAMBDA c : c # 13)
Colr(op) == IF op.col = << >> THEN << >> ELSE Colour(op.col)
Want(t, op) == [j \in 1..Len(t) |-> With(t[j], [b |-> op.b, i |-> op.i, u |-> op.u, col |-> Colr(op)])]
DecOk(o, t, op) == o.dec = t /\ o.db = op.b /\ o.di = op.i /\ o.du = op.u
                   /\ IF op.col = << >> THEN o.dcol = << >> ELSE Colour(o.dcol) = Colour(op.col)
Judge(cfg, op) == LET o == op.out t == op.t IN
  CASE cfg.kind = "osc" -> [ok |-> o.ok, same |-> Osc52(o.enc) = t]
    [] cfg.kind = "html" -> [ok |-> o.ok, enc |-> ReadHtml(o.enc) = Want(t, op), dec |-> DecOk(o, t, op),
                             conv |-> ReadRtf(o.conv) = Want(NoCR(t), op), plain |-> o.plain = t,
                             clip |-> DecOk(o.clip, t, op)]
    [] OTHER -> [ok |-> o.ok, enc |-> ReadRtf(o.enc) = Want(NoCR(t), op), dec |-> DecOk(o, NoCR(t), op),
                 conv |-> ReadHtml(o.conv) = Want(NoCR(t), op), plain |-> o.plain = NoCR(t)]
AllTrue(r) == \A f \in DOMAIN r : r[f]

Init0(cfg) == [cfg |-> cfg, j |-> [ok |-> TRUE]]
Apply(s, op) == [s EXCEPT !.j = Judge(s.cfg, op)]
\* the driver shows [fine |-> TRUE]; what is wrong can be read off j
Obs(s) == IF AllTrue(s.j) THEN [fine |-> TRUE] ELSE [fine |-> FALSE, j |-> s.j]
====

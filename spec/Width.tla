---- MODULE Width ----
(* The width of text in terminal cells.  A text is a sequence of code points; it divides into user-perceived
   characters (clusters), and its width is the sum of theirs.

   ops: [k |-> "add", cps]   append code points.   cfg: [text] the text to begin with                       *)
EXTENDS Integers, Sequences, FiniteSets, Base

ZWJ == 8205
VS15 == 65038
VS16 == 65039
KEY == 8419          \* the enclosing key cap
Tag(x) == x \in 917536..917631   \* spell a flag after the black flag
JamoL(x) == x \in 4352..4370     \* conjoining Hangul letters
JamoVT(x) == x \in 4449..4469 \/ x \in 4520..4546
Skin == 127995..127999
RI == 127462..127487
Ctl(x) == x \in 0..31 \/ x \in 127..159 \/ x \in {173, 8203, 65279}
Mark(x) == x \in 768..879 \/ x \in 1155..1159 \/ x \in 1425..1455 \/ x \in 3636..3642 \/ x \in 8400..8412 \/ x \in 65056..65071 \/ x \in 12441..12442
Pict(x) == \/ x \in 127744..127776 \/ x \in 128512..128591 \/ x \in 128640..128660 \/ x \in 129296..129338
           \/ x \in {128104, 128105, 128102, 128103, 128077, 128075, 128293, 127881, 127987, 127752, 128187, 10084, 9749, 9889, 11088}
Wide(x) == \/ x \in 19968..40959 \/ x \in 13312..19903 \/ x \in 44032..55203 \/ x \in 12353..12438 \/ x \in 12449..12538
           \/ x \in 65281..65376 \/ x \in 12289..12291 \/ x \in 131072..173782 \/ x \in 63744..64109 \/ JamoL(x)
\* ambiguous ones count one cell
Amb(x) == \/ x \in {167, 176, 177, 189, 215, 233, 252} \/ x \in 945..961 \/ x \in 963..969 \/ x \in 1040..1103 \/ x \in 9472..9547
One(x) == \/ x \in 32..126 \/ Amb(x) \/ x \in {228, 231, 241} \/ x \in 1488..1514 \/ x \in 1569..1594 \/ x \in 3585..3630 \/ x \in 4304..4336
          \/ x \in 65382..65437
Known(x) == Ctl(x) \/ Mark(x) \/ Pict(x) \/ Wide(x) \/ One(x) \/ x \in Skin \cup RI \cup {ZWJ, VS15, VS16, KEY} \/ Tag(x) \/ JamoVT(x)

Ext(x) == Mark(x) \/ Tag(x) \/ x \in Skin \cup {VS15, VS16, KEY}
EndsInJoin(c) == /\ c[Len(c)] = ZWJ
                 /\ \E k \in 1..(Len(c) - 1) : (Pict(c[k]) \/ c[k] \in Skin) /\ \A j \in (k + 1)..(Len(c) - 1) : Ext(c[j])
Joins(c, x) == /\ ~Ctl(c[1])
               /\ \/ Ext(x) \/ x = ZWJ
                  \/ JamoVT(x) /\ (JamoL(c[Len(c)]) \/ JamoVT(c[Len(c)]) \/ c[Len(c)] \in 44032..55203)
                  \/ JamoL(x) /\ JamoL(c[Len(c)])
                  \/ x \in RI /\ Len(c) = 1 /\ c[1] \in RI
                  \/ Pict(x) /\ EndsInJoin(c)
Seg(cps) == FoldLeft(LAMBDA cs, x : IF cs # << >> /\ Joins(cs[Len(cs)], x) THEN [cs EXCEPT ![Len(cs)] = Append(@, x)] ELSE Append(cs, <<x>>),
                     << >>, cps)
Second(c) == IF Len(c) > 1 THEN c[2] ELSE 0
ClW(c) == LET x == c[1] IN
  CASE Ctl(x) -> 0
    \* a skin tone without its pictograph is shown as a patch
    [] Mark(x) \/ x \in {ZWJ, VS15, VS16, KEY} -> IF \E k \in 1..Len(c) : c[k] \in Skin THEN 2 ELSE 0
    [] Second(c) = VS15 -> 1
    [] Second(c) = VS16 -> 2
    [] Pict(x) \/ Wide(x) \/ x \in RI \cup Skin -> 2
    [] OTHER -> 1
CellsOf(cs) == FoldLeft(LAMBDA n, c : n + ClW(c), 0, cs)
Width(cps) == CellsOf(Seg(cps))

\* the texts meant here: presentation selectors, skin tones, joiners and key caps only where they belong
KeyBase(x) == x \in 48..57 \cup {35, 42}
InPict(q) == \* q ends inside a pictograph's cluster
  LET cs == Seg(q) IN cs # << >> /\ Pict(cs[Len(cs)][1]) /\ q[Len(q)] # ZWJ /\ VS15 \notin SeqSet(cs[Len(cs)])
Fits(q, x) == LET prev == IF q = << >> THEN 0 ELSE q[Len(q)] IN
  CASE x \in {VS15, VS16} -> Pict(prev) \/ (x = VS16 /\ KeyBase(prev) /\ Known(prev))
    [] x = KEY -> prev = VS16 \/ KeyBase(prev)
    [] x \in Skin -> q = << >> \/ (InPict(q) /\ prev \notin Skin)
    [] x = ZWJ -> InPict(q)
    [] x \in RI -> prev # ZWJ
    [] Mark(x) -> prev # ZWJ
    [] OTHER -> Known(x)

Init0(cfg) == [text |-> cfg.text]
Apply(s, op) == [s EXCEPT !.text = @ \o op.cps]
HasCtl(q) == \E k \in 1..Len(q) : Ctl(q[k])
Obs(s) == LET q == s.text   n == Len(q)   w == Width(q) IN
  [w |-> w,
   rest |-> [k \in 1..n |-> Width(SubSeq(q, k, n))],   \* what is left of the text from each code point on
   cell |-> w, same |-> TRUE,
   boxes |-> IF HasCtl(q) \/ n = 0 THEN <<-1, -1>> ELSE <<w, w>>]   \* the space layout and style give it

Inv(s) == LET q == s.text   cs == Seg(q) IN
  /\ Cat(cs) = q
  /\ \A c \in SeqSet(cs) : ClW(c) \in 0..2
  \* cutting between characters divides the width
  /\ \A k \in 0..Len(cs) : Width(Cat(SubSeq(cs, 1, k))) + Width(Cat(SubSeq(cs, k + 1, Len(cs)))) = Width(q)
StepOk(s, op, s2) == Fits(s.text, op.cps[1]) => Width(s2.text) >= Width(s.text) - 1
Cfgs == {[text |-> << >>]}
Alphabet == {97, 49, 769, 19990, 128512, 10084, ZWJ, VS16, VS15, 127997, 127465, 10, 8203, KEY, 945}
Ops(s) == {[k |-> "add", cps |-> <<x>>] : x \in {y \in Alphabet : Fits(s.text, y)}}
====

------------------------------- MODULE Palette -------------------------------
(* Colours and what a terminal of limited colour support is told instead of them. *)
EXTENDS Base

Cube == <<0, 95, 135, 175, 215, 255>>
Pal16 == << <<0,0,0>>, <<128,0,0>>, <<0,128,0>>, <<128,128,0>>, <<0,0,128>>, <<128,0,128>>, <<0,128,128>>, <<192,192,192>>,
            <<128,128,128>>, <<255,0,0>>, <<0,255,0>>, <<255,255,0>>, <<0,0,255>>, <<255,0,255>>, <<0,255,255>>, <<255,255,255>> >>
CubeRGB(n) == LET k == n - 16 IN <<Cube[(k \div 36) + 1], Cube[((k \div 6) % 6) + 1], Cube[(k % 6) + 1]>>
Grey(n) == 8 + 10 * (n - 232)
\* the palette of 256
Pal(n) == IF n < 16 THEN Pal16[n + 1] ELSE IF n < 232 THEN CubeRGB(n) ELSE <<Grey(n), Grey(n), Grey(n)>>

Sq(x) == x * x
Dist(c, d) == Sq(c[1] - d[1]) + Sq(c[2] - d[2]) + Sq(c[3] - d[3])
Nearest(c, S) == LET m == Min({Dist(c, Pal(n)) : n \in S}) IN {n \in S : Dist(c, Pal(n)) = m}
Abs(x) == IF x < 0 THEN -x ELSE x
Mean(c) == (c[1] + c[2] + c[3]) \div 3
Greyish(c) == \A k \in 1..3 : Abs(c[k] - Mean(c)) <= 10
Level(x) == LET m == Min({Abs(x - Cube[k]) : k \in 1..6}) IN {k \in 0..5 : Abs(x - Cube[k + 1]) = m}
\* the channels of a colour of the cube are independent
NearCube(c) == {16 + 36 * r + 6 * g + b : r \in Level(c[1]), g \in Level(c[2]), b \in Level(c[3])}
Allowed256(c) ==
  IF Greyish(c) /\ Mean(c) < 8 THEN {16}            \* too close to black for the ramp
  ELSE IF Greyish(c) /\ Mean(c) > 238 THEN {231}    \* too close to white
  ELSE Nearest(c, NearCube(c) \cup 232..255)
Allowed16(c) == Nearest(c, 0..15)

Caps == {"none", "16", "256", "true"}
\* the parameters of the SGR sequences which may set the colour (one empty alternative: none)
Params(c, cap, fg) ==
  CASE cap = "none" -> {<<>>}
    [] cap = "true" -> {<<IF fg THEN 38 ELSE 48, 2, c[1], c[2], c[3]>>}
    [] cap = "256"  -> {<<IF fg THEN 38 ELSE 48, 5, n>> : n \in Allowed256(c)}
    [] cap = "16"   -> {<<(IF fg THEN 30 ELSE 40) + (IF n >= 8 THEN 60 + n - 8 ELSE n)>> : n \in Allowed16(c)}

(* ---- constructors *)
HexDigit(p) == IF p \in 48..57 THEN p - 48 ELSE IF p \in 65..70 THEN p - 55 ELSE IF p \in 97..102 THEN p - 87 ELSE -1
NoHash(t) == IF t # <<>> /\ Head(t) = 35 THEN Tail(t) ELSE t
HexOk(t) == LET h == NoHash(t) IN Len(h) \in {3, 6} /\ \A k \in 1..Len(h) : HexDigit(h[k]) >= 0
HexRGB(t) == LET h == NoHash(t)
                 D(k) == HexDigit(h[k])
             IN IF Len(h) = 3 THEN [k \in 1..3 |-> 17 * D(k)] ELSE [k \in 1..3 |-> 16 * D(2 * k - 1) + D(2 * k)]
DigitCp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
ToHex(c) == <<35>> \o Cat([k \in 1..3 |-> <<DigitCp(c[k] \div 16), DigitCp(c[k] % 16)>>])

================================================================================

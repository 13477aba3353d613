------------------------------- MODULE Words -------------------------------
(* Case-insensitive matching, numbers and fixed phrases. *)
EXTENDS Base

Lower(a) == IF a \in 1065..1090 THEN a + 32 ELSE IF a = 1209 THEN 1203 ELSE a
LowT(t) == [k \in 1..Len(t) |-> Lower(t[k])]
Within(q, t) == \E k \in 0..(Len(t) - Len(q)) : SubSeq(t, k + 1, k + Len(q)) = q

RECURSIVE Num(_)
Num(n) == IF n < 10 THEN <<1048 + n>> ELSE Num(n \div 10) \o <<1048 + (n % 10)>>

NoMatches == <<1040, 1110, 1111, SP, 1109, 1097, 1116, 1099, 1104, 1101, 1115, 1041>>
=============================================================================

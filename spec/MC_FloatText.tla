---------------------------- MODULE MC_FloatText ----------------------------
(* NumParts accepts exactly the numbers of the grammar, and the comparison *)
(* of magnitudes is the order of the rationals (all short texts).          *)
EXTENDS FloatText, JsonParse, TLC
CONSTANTS MaxLen, MaxPair
VARIABLE t
Alphabet == {45, 43, 48, 49, 50, 46, 101, 69}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E b \in Alphabet : t' = Append(t, b)
Spec == Init /\ [][Next]_t

Grammar == NumParts(t).ok = Parse(t).ok

\* the values of short texts as integers (times 10^4)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Small(s) == LET p == NumParts(s) IN p.ok /\ Len(p.exp) <= 1 /\ Len(p.frac) + Len(p.int) <= 3
Value(s) == LET p == NumParts(s) e == NatOf(p.exp, 1, 0)
            IN NatOf(p.int \o p.frac, 1, 0) * Pow10(4 + (IF p.eneg THEN -e ELSE e) - Len(p.frac))
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET S == Texts(n - 1) IN S \cup {Append(s, b) : s \in S, b \in {48, 49, 50, 46, 101, 45}}
Others == {s \in Texts(MaxPair) : Small(s)}
Order == Small(t) => \A s \in Others : MagLess(MagOf(NumParts(t)), MagOf(NumParts(s))) = (Value(t) < Value(s))
=============================================================================

------------------------------ MODULE Numbers ------------------------------
(* The scalar functions of the specification over their whole domains, at   *)
(* the real parameters.  A behaviour walks through all 65536 words, one     *)
(* parameter set per initial state, and keeps what it has counted.          *)
EXTENDS Frodo

CONSTANT SizesUsed

VARIABLES p,      \* parameter set
          x,      \* next word
          count   \* words so far that the sampler maps to each value, as a function of the value
vars == <<p, x, count>>

Sets == {ParamsOf(size, "SHAKE") : size \in SizesUsed}
Max(P) == Len(P.chi) - 1
Init == p \in Sets /\ x = 0 /\ count = [z \in -Max(p)..Max(p) |-> 0]
Next == /\ x < 65536
        /\ count' = [count EXCEPT ![Sample(p.chi, x)] = @ + 1]
        /\ x' = x + 1 /\ p' = p
Spec == Init /\ [][Next]_vars
View == <<p.n, x>>

\* C05: in the end the sampler has produced every value exactly as often as the distribution says
Exact == x = 65536 => \A z \in -Max(p)..Max(p) : count[z] = p.chi[(IF z < 0 THEN -z ELSE z) + 1]
                                                           \* chi[1] counts both signs of zero
\* the sign is the low bit, the magnitude grows with the rest
Shape == x < 65534 => /\ Sample(p.chi, x) * Sample(p.chi, x + 2) >= 0
                      /\ LET a == Sample(p.chi, x) b == Sample(p.chi, x + 2) IN IF x % 2 = 0 THEN 0 <= a /\ a <= b ELSE b <= a /\ a <= 0
                      /\ x % 2 = 0 => Sample(p.chi, x) = -Sample(p.chi, x + 1)

\* C01: each coefficient decodes to the message whose encoding is within the radius, and to no other
Step(P) == 2 ^ (P.D - P.B)
Centred(P, c) == LET d == c % Q(P) IN IF d >= Q(P) \div 2 THEN d - Q(P) ELSE d
Near(P, c) == {k \in 0..(2 ^ P.B - 1) : LET d == Centred(P, c - k * Step(P)) IN -Radius(P) <= d /\ d < Radius(P)}
Rounds == x < Q(p) => Near(p, x) = {Dc(p.D, p.B, x)}
\* encodings are at least twice the radius apart and decode to themselves
Encodes == x < 2 ^ p.B => Dc(p.D, p.B, x * Step(p)) = x

\* C06: the word at each place of a packed row comes back, whatever surrounds it, and nothing else changes
Row(P, i, v, bg) == [j \in 1..8 |-> IF j = i THEN v ELSE bg]
Packs == x < Q(p) => \A i \in 1..8, bg \in {0, Q(p) - 1} :
           LET r == Row(p, i, x, bg)
               s == TLCEval(Pack(p.D, r)) IN
           /\ Len(s) = p.D /\ \A k \in 1..p.D : s[k] \in 0..255
           /\ Unpack(p.D, s) = r
============================================================================

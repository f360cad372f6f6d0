------------------------------- MODULE Octets -------------------------------
(* Octet strings and bit fields, shared by all the codec modules.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

Octet == 0..255
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
          32768, 65536>>
Exp2(k) == Pow2[k+1]                       \* 0 <= k <= 16
Bit(x, k) == (x \div Exp2(k)) % 2
Field(x, k, n) == (x \div Exp2(k)) % Exp2(n)     \* n bits of x from bit k up
SetField(x, k, n, v) == x - Field(x, k, n) * Exp2(k) + v * Exp2(k)
\* bitwise or of two octets
Or(x, y) == FoldLeft(LAMBDA acc, k : IF Bit(x, k) = 1 \/ Bit(y, k) = 1 THEN acc + Exp2(k) ELSE acc,
                     0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
Rest(s, n) == SubSeq(s, n + 1, Len(s))            \* s without its first n
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))   \* its first n
Ones(s) == \A i \in 1..Len(s) : s[i] \in Octet
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Fail == [ok |-> FALSE, b |-> <<>>]
Good(b) == [ok |-> TRUE, b |-> b]
=============================================================================

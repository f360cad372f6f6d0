-------------------------------- MODULE Ucs2 --------------------------------
(* UTF-16 (big endian) as used for UCS-2 user data, and UTF-8.                *)
EXTENDS Octets

REPLACEMENT == 65533
IsHigh(u) == u >= 55296 /\ u < 56320
IsLow(u)  == u >= 56320 /\ u < 57344
IsSurr(u) == u >= 55296 /\ u < 57344
Combine(h, l) == (h - 55296) * 1024 + (l - 56320) + 65536

Units1(c) == IF c < 65536 THEN <<c>>
             ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
\* code points that are not characters are encoded as the replacement
Sane(c) == IF c < 0 \/ c > 1114111 \/ IsSurr(c) THEN REPLACEMENT ELSE c
Units(cps) == FlattenSeq([i \in 1..Len(cps) |-> Units1(Sane(cps[i]))])
ToOctets(units) == [k \in 1..2*Len(units) |->
                      IF k % 2 = 1 THEN units[(k+1) \div 2] \div 256 ELSE units[k \div 2] % 256]
Ucs2Encode(cps) == ToOctets(Units(cps))
ToUnits(src) == [k \in 1..(Len(src) \div 2) |-> src[2*k-1] * 256 + src[2*k]]

\* Decode of whole units: text, and the surrogate dangling at the end (or <<>>)
UnitsDecode(units) ==
  LET n == Len(units)
      step(acc, i) ==
        LET u == units[i]
            \* a pending high surrogate not followed by a low one
            b1 == IF acc.hi # 0 /\ ~IsLow(u) THEN Append(acc.b, REPLACEMENT) ELSE acc.b
        IN IF acc.hi # 0 /\ IsLow(u) THEN [b |-> Append(acc.b, Combine(acc.hi, u)), hi |-> 0, d |-> <<>>]
           ELSE IF IsHigh(u) THEN [b |-> b1, hi |-> u, d |-> <<>>]
           ELSE IF IsLow(u) THEN IF i = n THEN [b |-> b1, hi |-> 0, d |-> <<u>>]
                                 ELSE [b |-> Append(b1, REPLACEMENT), hi |-> 0, d |-> <<>>]
           ELSE [b |-> Append(b1, u), hi |-> 0, d |-> <<>>]
      res == FoldLeft(step, [b |-> <<>>, hi |-> 0, d |-> <<>>], [i \in 1..n |-> i])
  IN [b |-> res.b, d |-> IF res.hi # 0 THEN <<res.hi>> ELSE res.d]

\* [st: "ok", "odd" or "dangling", b: text, d: the octets left dangling]
Ucs2Decode(src) ==
  IF Len(src) % 2 = 1 THEN [st |-> "odd", b |-> <<>>, d |-> <<>>]
  ELSE LET r == UnitsDecode(ToUnits(src))
       IN [st |-> IF r.d = <<>> THEN "ok" ELSE "dangling", b |-> r.b, d |-> ToOctets(r.d)]

Utf8One(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(cps) == FlattenSeq([i \in 1..Len(cps) |-> Utf8One(cps[i])])
=============================================================================

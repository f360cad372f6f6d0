------------------------------ MODULE Septets -------------------------------
(* Packing of septets into octets: 3GPP TS 23.038 6.1.2.1 (SMS) and 6.1.2.3   *)
(* (USSD).  Bit k of the packed string is bit k%8 of octet k\div 8; the       *)
(* septets follow the fill bits, least significant bit first.                 *)
EXTENDS Octets

CR == 13

\* definition by bits
PackedBit(u, fill, k) ==
  IF k < fill \/ (k - fill) \div 7 >= Len(u) THEN 0
  ELSE Bit(u[(k - fill) \div 7 + 1], (k - fill) % 7)
PackedLen(n, fill) == IF n = 0 THEN 0 ELSE (7 * n + fill + 7) \div 8
PackByBits(u, fill) ==
  [o \in 1..PackedLen(Len(u), fill) |->
     SumSeq([j \in 1..8 |-> PackedBit(u, fill, 8 * (o - 1) + j - 1) * Exp2(j - 1)])]
UnpackedLen(n, fill) == IF 8 * n < fill THEN 0 ELSE (8 * n - fill) \div 7
UnpackByBits(p, fill) ==
  [s \in 1..UnpackedLen(Len(p), fill) |->
     SumSeq([j \in 1..7 |-> LET k == fill + 7 * (s - 1) + j - 1
                            IN Bit(p[k \div 8 + 1], k % 8) * Exp2(j - 1)])]

\* the same by octets (MC_Septets checks that they agree)
At(u, i) == IF i \in 1..Len(u) THEN u[i] ELSE 0
Pack(u, fill) ==
  [o \in 1..PackedLen(Len(u), fill) |->
     LET b == 8 * (o - 1) - fill IN
     IF b < 0 THEN (At(u, 1) * Exp2(fill) + At(u, 2) * Exp2(fill + 7)) % 256
     ELSE LET q == b \div 7
              s == b % 7
          IN (At(u, q + 1) \div Exp2(s) + At(u, q + 2) * Exp2(7 - s)
              + At(u, q + 3) * Exp2(14 - s)) % 256]
Unpack(p, fill) ==
  [i \in 1..UnpackedLen(Len(p), fill) |->
     LET b == fill + 7 * (i - 1)
         q == b \div 8
         s == b % 8
     IN (At(p, q + 1) \div Exp2(s) + At(p, q + 2) * Exp2(8 - s)) % 128]

\* USSD: 7 spare bits would read as '@', so they hold a CR; a final CR that
\* ends on an octet boundary would read as that filler, so another CR follows
PackUSSD(u, fill) ==
  LET b    == Pack(u, fill)
      bits == 7 * Len(u) + fill
  IN IF u = <<>> THEN <<>>
     ELSE IF bits % 8 = 1 THEN [b EXCEPT ![Len(b)] = @ + 2 * CR]
     ELSE IF bits % 8 = 0 /\ u[Len(u)] = CR THEN Append(b, CR)
     ELSE b
\* filler is only recognised in strings of at least two octets
UnpackUSSD(p, fill) ==
  LET u    == Unpack(p, fill)
      bits == 8 * Len(p) - fill
      n    == Len(p)
      filler == n > 1 /\ \/ bits % 7 = 0 /\ p[n] \div 2 = CR
                         \/ bits % 7 = 1 /\ p[n] = CR /\ p[n-1] \div 2 = CR
  IN IF filler THEN Take(u, Len(u) - 1) ELSE u
=============================================================================

------------------------------ MODULE MC_Septets ------------------------------
(* Packing: the definition by octets is that by bits, and unpacking inverts it. *)
EXTENDS Small

S == {0, CR, 127}
O == {0, 13, 26, 27, 141, 255}
Pats == {<<CR>>, <<127>>, <<1, 64>>, <<CR, 0>>, <<85, 42, 127, 0, 1>>}
Packs(us, f) == In1("pack", {[u |-> u, f |-> f, ussd |-> s] : u \in us, s \in BOOLEAN})
Unpacks(ps, f) == In1("unpack", {[p |-> p, f |-> f, ussd |-> s] : p \in ps, s \in BOOLEAN})
Shares == 1..8
Inputs(i) ==
  IF i < 8 THEN Packs(Upto(S, Q(5, 7)), i - 1) \cup Unpacks(Upto(O, Q(3, 4)), i - 1)
  ELSE UNION {Packs({Rep(p, n) : p \in Pats, n \in 6..Q(24, 80)}
                    \cup {Append(Rep(p, n), CR) : p \in Pats, n \in 6..Q(24, 80)}, f) : f \in 0..6}

TwoCRs(u, f) == LET n == Len(u) IN n > 1 /\ u[n] = CR /\ u[n-1] = CR /\ (7 * (n - 1) + f) % 8 = 0
PackLaws(u, f, ussd) ==
  LET b == Pack(u, f)
      p == PackUSSD(u, f)
      spare == 8 * Len(b) - f - 7 * Len(u)
  IN /\ b = PackByBits(u, f) /\ Ones(b)
     \* no octet more than needed, and a whole septet is spare only if it must be
     /\ u # <<>> => spare \in 0..7
     /\ Unpack(b, f) = u \o (IF u # <<>> /\ spare = 7 THEN <<0>> ELSE <<>>)
     \* a USSD string is ambiguous in one case, which 23.038 6.1.2.3.1 accepts:
     \* two final CRs of which the first ends on an octet boundary are read as one
     /\ ussd => /\ UnpackUSSD(p, f) = IF TwoCRs(u, f) THEN Take(u, Len(u) - 1) ELSE u
                /\ Len(p) \in Len(b)..Len(b) + 1
UnpackLaws(p, f, ussd) ==
  LET u == Unpack(p, f) IN
  /\ u = UnpackByBits(p, f)
  /\ 8 * Len(p) - f \in 7 * Len(u)..7 * Len(u) + 6 \/ p = <<>>
  \* what was read is what is there
  /\ \A i \in 1..Len(u), k \in 0..6 : Bit(u[i], k) = Bit(p[(f + 7 * (i - 1) + k) \div 8 + 1], (f + 7 * (i - 1) + k) % 8)
  /\ ussd => UnpackUSSD(p, f) \in {u, Take(u, Len(u) - 1)}
Guarantee(x) == CASE x.k = "pack" -> PackLaws(x.a.u, x.a.f, x.a.ussd)
                  [] x.k = "unpack" -> UnpackLaws(x.a.p, x.a.f, x.a.ussd)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

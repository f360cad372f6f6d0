------------------------------ MODULE MC_Numbers ------------------------------
(* Addresses, semi-octets and the SMSC address with the TPDU that follows it.   *)
EXTENDS Small

\* international, national, unknown, alphanumeric (two plans), the rest
Toas == {145, 161, 129, 208, 80, 255}
Cs == {48, 57, 42, 99, 65, 43, 64, 8364}
Os == {33, 240, 15, 255, 186, 0}
Ad(toas, as) == {[toa |-> t, a |-> a] : t \in toas, a \in as}
Pats == {<<49, 50, 51>>, <<64>>, <<65, 98, 64>>, <<35>>}
Lens == {7, 8, 9, 15, 16, 20, 21, 145, 146, 254, 255, 256}
Shares == 1..9
Inputs(i) ==
  CASE i = 1 -> In1("addrm", {[ad |-> x] : x \in Ad(Toas, Upto(Cs, Q(2, 3)))})
    [] i = 2 -> In1("addrm", {[ad |-> x] : x \in Ad(Toas, {Rep(p, n) : p \in Pats, n \in Lens})})
    [] i = 3 -> In1("addru", {[b |-> <<l, t>> \o b] : l \in 0..5, t \in {145, 208, 255}, b \in Upto(Os, Q(2, 3))})
    [] i = 4 -> In1("addru", {[b |-> b] : b \in Upto({0, 1, 2, 3, 208, 33}, Q(3, 4))})
    [] i = 5 -> In1("semie", {[a |-> a] : a \in Upto(Cs, Q(3, 4))})
    [] i = 6 -> In1("semid", {[n |-> n, b |-> b] : n \in 0..5, b \in Upto(Os, Q(2, 3))})
    [] i = 7 -> In1("num", {[ad |-> x, num |-> n, ton |-> t, np |-> p] :
                            x \in Ad({145, 129, 208}, {<<>>, <<49, 50>>}), n \in Upto({43, 49, 42}, 3), t \in {0, 7}, p \in {1, 9}})
    [] i = 8 -> In1("pdum", {[ad |-> x, b |-> b] : x \in Ad({145, 0, 208}, Upto({48, 57, 99, 65}, Q(3, 5))), b \in {<<>>, <<0>>, <<4, 11>>}})
    [] i = 9 -> In1("pduu", {[b |-> b] : b \in Upto({0, 1, 2, 3, 145, 241}, Q(4, 6))})

AddrLaws(ad) ==
  LET m == MarshalAddress(ad)
      p == ParseAddress(m.b)
      q == ParseAddress(m.b \o <<17, 255>>)
  IN m.ok => /\ Ones(m.b) /\ p.st = "ok" /\ p.n = Len(m.b) /\ p.toa = ad.toa /\ p.a = ad.a
             \* nothing beyond it is read, and it cannot be cut short
             /\ q = p
             /\ \A k \in {0, 1, Len(m.b) - 1} : k < Len(m.b) => ParseAddress(Take(m.b, k)).st = "err"
AddrParseLaws(b) ==
  LET p == ParseAddress(b)
      m == MarshalAddress([toa |-> p.toa, a |-> p.a])
  IN p.st = "ok" =>
       /\ p.n <= Len(b) /\ p.n = 2 + (b[1] + 1) \div 2 /\ p.toa = b[2]
       \* a number has the digits its length says; text, as many characters as fit, or fewer by the escapes
       /\ IF TON(p.toa) = ALPHANUMERIC THEN Len(p.a) <= (4 * b[1]) \div 7
          ELSE Len(p.a) = b[1] /\ m = Good(Take(b, p.n))
SemiLaws(a) ==
  LET s == SemiEncode(a) IN
  /\ s.ok = (\A i \in 1..Len(a) : IsDigit(a[i]))
  /\ s.ok => /\ Len(s.b) = (Len(a) + 1) \div 2
             /\ ToDigits(NoFill(Nibbles(s.b))) = a
SemiParseLaws(b) == LET d == ToDigits(NoFill(Nibbles(b)))
                    IN Len(d) <= 2 * Len(b) /\ ((\A k \in 1..2*Len(b) : Nibbles(b)[k] # FILL) => SemiEncode(d) = Good(b))
NumLaws(ad, num) ==
  LET x == SetNumber(ad, num) IN
  /\ Number(x) = <<PLUS>> \o StripPlus(num)
  /\ SetNumber(x, Number(x)) = x
  /\ Field(x.toa, 7, 1) = Field(ad.toa, 7, 1)
SmscLaws(ad, b) ==
  LET m == MarshalSMSC(ad)
      p == ParseSMSC(m.b \o b)
  IN m.ok => /\ p.st = "ok" /\ Rest(m.b \o b, p.n) = b /\ p.a = ad.a
             /\ p.toa = IF ad.a = <<>> THEN 0 ELSE ad.toa
             /\ m.b[1] = Len(m.b) - 1
SmscParseLaws(b) ==
  LET p == ParseSMSC(b)
  IN IF p.st # "ok" THEN b = <<>> \/ Len(b) < 1 + b[1]
     ELSE p.n = 1 + b[1] /\ p.n <= Len(b) /\ Len(p.a) <= 2 * b[1]
Guarantee(x) == CASE x.k = "addrm" -> AddrLaws(x.a.ad)
                  [] x.k = "addru" -> AddrParseLaws(x.a.b)
                  [] x.k = "semie" -> SemiLaws(x.a.a)
                  [] x.k = "semid" -> SemiParseLaws(x.a.b)
                  [] x.k = "num" -> NumLaws(x.a.ad, x.a.num)
                  [] x.k = "pdum" -> SmscLaws(x.a.ad, x.a.b)
                  [] x.k = "pduu" -> SmscParseLaws(x.a.b)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

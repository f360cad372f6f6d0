------------------------------ MODULE Numbers -------------------------------
(* BCD, semi-octets, addresses and the SMSC address: 3GPP TS 23.040 9.1.2.    *)
EXTENDS Octets, Gsm7, Septets

\* --- BCD: the tens are in the low nibble -------------------------------------
BcdEncode(v) == IF v \in 0..99 THEN Good(<<(v % 10) * 16 + v \div 10>>) ELSE Fail
BcdDecode(o) == IF o % 16 > 9 \/ o \div 16 > 9 THEN [ok |-> FALSE, v |-> 0]
                ELSE [ok |-> TRUE, v |-> (o % 16) * 10 + o \div 16]
Abs(v) == IF v < 0 THEN -v ELSE v
BcdEncodeSigned(v) ==
  IF v \in -79..79 THEN Good(<<(Abs(v) % 10) * 16 + Abs(v) \div 10 + (IF v < 0 THEN 8 ELSE 0)>>)
  ELSE Fail
BcdDecodeSigned(o) ==
  IF o \div 16 > 9 THEN [ok |-> FALSE, v |-> 0]
  ELSE LET m == (o % 8) * 10 + o \div 16
       IN [ok |-> TRUE, v |-> IF Bit(o, 3) = 1 THEN -m ELSE m]

\* --- semi-octets: digits as ASCII codes, "0123456789*#abc", low nibble first --
Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 42, 35, 97, 98, 99>>
FILL == 15
IsDigit(c) == \E i \in 1..15 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..15 : Digits[i] = c) - 1
SemiEncode(a) ==
  IF \E i \in 1..Len(a) : ~IsDigit(a[i]) THEN Fail
  ELSE Good([o \in 1..((Len(a) + 1) \div 2) |->
              DigitVal(a[2*o-1]) + 16 * (IF 2*o <= Len(a) THEN DigitVal(a[2*o]) ELSE FILL)])
Nibbles(src) == [k \in 1..2*Len(src) |->
                   IF k % 2 = 1 THEN src[(k+1) \div 2] % 16 ELSE src[k \div 2] \div 16]
NoFill(nibs) == SelectSeq(nibs, LAMBDA x : x # FILL)
ToDigits(nibs) == [k \in 1..Len(nibs) |-> Digits[nibs[k] + 1]]

\* --- addresses [toa, a] (a: characters) ----------------------------------------
TON(toa) == Field(toa, 4, 3)
NPI(toa) == Field(toa, 0, 4)
ALPHANUMERIC == 5
MarshalAddress(ad) ==
  IF TON(ad.toa) = ALPHANUMERIC
  THEN IF ~Encodable(ad.a, 0, NoShift) THEN Fail
       ELSE LET l == (7 * Len(ad.a) + 3) \div 4        \* useful semi-octets
            IN IF l > 255 THEN Fail
               ELSE Good(<<l, ad.toa>> \o Pack(GsmEncode(ad.a, 0, NoShift), 0))
  ELSE LET s == SemiEncode(ad.a)
       IN IF ~s.ok \/ Len(ad.a) > 255 THEN Fail
          ELSE Good(<<Len(ad.a), ad.toa>> \o s.b)

\* st: "ok" or "err"
AddrErr == [st |-> "err", n |-> 0, toa |-> 0, a |-> <<>>]
ParseAddress(src) ==
  IF Len(src) < 2 THEN AddrErr
  ELSE LET l   == src[1]
           ol  == (l + 1) \div 2
           toa == src[2]
           body == SubSeq(src, 3, 2 + ol)
           nibs == Nibbles(body)
       IN IF Len(src) < 2 + ol THEN AddrErr
          ELSE IF TON(toa) = ALPHANUMERIC
          THEN LET d == GsmDecode(Take(Unpack(body, 0), (4 * l) \div 7), 0, NoShift, TRUE)
               IN IF d.ok THEN [st |-> "ok", n |-> 2 + ol, toa |-> toa, a |-> d.b] ELSE AddrErr
          ELSE LET dig == Take(nibs, l)
               IN IF (l % 2 = 1 /\ nibs[2*ol] # FILL) \/ \E k \in 1..l : dig[k] = FILL THEN AddrErr
                  ELSE [st |-> "ok", n |-> 2 + ol, toa |-> toa, a |-> ToDigits(dig)]

\* --- numbers: an international address, reported with a leading + ----------------
PLUS == 43
INTERNATIONAL == 1
StripPlus(num) == IF Len(num) > 0 /\ num[1] = PLUS THEN Tail(num) ELSE num
SetNumber(ad, num) == [toa |-> SetField(SetField(ad.toa, 4, 3, INTERNATIONAL), 0, 4, 1),
                       a |-> StripPlus(num)]
Number(ad) == IF TON(ad.toa) = INTERNATIONAL THEN <<PLUS>> \o ad.a ELSE ad.a

\* --- SMSC address: length in octets including the type ---------------------------
MarshalSMSC(ad) ==
  LET s == SemiEncode(ad.a)
  IN IF ~s.ok \/ Len(s.b) > 254 THEN Fail
     ELSE IF s.b = <<>> THEN Good(<<0>>)
     ELSE Good(<<Len(s.b) + 1, ad.toa>> \o s.b)
ParseSMSC(src) ==
  IF src = <<>> THEN AddrErr
  ELSE IF src[1] = 0 THEN [st |-> "ok", n |-> 1, toa |-> 0, a |-> <<>>]
  ELSE IF Len(src) < 1 + src[1] \/ Len(src) < 2 THEN AddrErr
  ELSE LET body == SubSeq(src, 3, 1 + src[1])
       IN [st |-> "ok", n |-> 1 + src[1], toa |-> src[2], a |-> ToDigits(NoFill(Nibbles(body)))]
=============================================================================

------------------------------- MODULE Header -------------------------------
(* The user data header: 3GPP TS 23.040 9.2.3.24.  A header is a sequence of  *)
(* information elements [id, d].                                               *)
EXTENDS Octets

\* as the code has them: see Names
ShiftIEI == 24
LockingIEI == 25
Concat8IEI == 0
Concat16IEI == 8

HeaderLen(ies) == SumSeq([i \in 1..Len(ies) |-> 2 + Len(ies[i].d)])     \* the UDHL
HeaderSize(ies) == IF ies = <<>> THEN 0 ELSE 1 + HeaderLen(ies)          \* with the UDHL
MarshalHeader(ies) ==
  IF ies = <<>> THEN Good(<<>>)
  ELSE IF HeaderLen(ies) > 255 THEN Fail
  ELSE Good(<<HeaderLen(ies)>> \o
            FlattenSeq([i \in 1..Len(ies) |-> <<ies[i].id, Len(ies[i].d)>> \o ies[i].d]))

\* the elements in src from position p up to and including position e
RECURSIVE ParseIEs(_, _, _)
ParseIEs(src, p, e) ==
  IF p > e THEN [ok |-> TRUE, ies |-> <<>>]
  ELSE IF p + 1 > e \/ p + 1 + src[p+1] > e THEN [ok |-> FALSE, ies |-> <<>>]
  ELSE LET r == ParseIEs(src, p + 2 + src[p+1], e)
       IN [ok |-> r.ok,
           ies |-> <<[id |-> src[p], d |-> SubSeq(src, p + 2, p + 1 + src[p+1])]>> \o r.ies]
ParseHeader(src) ==
  IF src = <<>> \/ Len(src) < 1 + src[1] THEN [ok |-> FALSE, n |-> 0, ies |-> <<>>]
  ELSE LET r == ParseIEs(src, 2, 1 + src[1])
       IN [ok |-> r.ok, n |-> 1 + src[1], ies |-> IF r.ok THEN r.ies ELSE <<>>]

WithId(ies, id) == SelectSeq(ies, LAMBDA e : e.id = id)
HasIE(ies, id) == \E i \in 1..Len(ies) : ies[i].id = id
LastIE(ies, id) == LET s == WithId(ies, id) IN s[Len(s)]      \* if HasIE

NoConcat == [ok |-> FALSE, total |-> 0, seqno |-> 0, ref |-> 0]
Concat8(ies) ==
  IF HasIE(ies, Concat8IEI) /\ Len(LastIE(ies, Concat8IEI).d) = 3
  THEN LET d == LastIE(ies, Concat8IEI).d
       IN [ok |-> TRUE, ref |-> d[1], total |-> d[2], seqno |-> d[3]]
  ELSE NoConcat
Concat16(ies) ==
  IF HasIE(ies, Concat16IEI) /\ Len(LastIE(ies, Concat16IEI).d) = 4
  THEN LET d == LastIE(ies, Concat16IEI).d
       IN [ok |-> TRUE, ref |-> d[1] * 256 + d[2], total |-> d[3], seqno |-> d[4]]
  ELSE NoConcat
ConcatInfo(ies) == IF Concat8(ies).ok THEN Concat8(ies) ELSE Concat16(ies)

ConcatIE(is16, ref, total, seqno) ==
  IF is16 THEN [id |-> Concat16IEI, d |-> <<(ref \div 256) % 256, ref % 256, total % 256, seqno % 256>>]
  ELSE [id |-> Concat8IEI, d |-> <<ref % 256, total % 256, seqno % 256>>]

\* the national language table named by the last element with that id, or -1
NationalNLI(ies, id) ==
  IF HasIE(ies, id) /\ Len(LastIE(ies, id).d) >= 1 THEN LastIE(ies, id).d[1] ELSE -1
=============================================================================

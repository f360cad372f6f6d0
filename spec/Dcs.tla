--------------------------------- MODULE Dcs ---------------------------------
(* The data coding scheme: 3GPP TS 23.038 4.                                   *)
EXTENDS Octets

A7 == 0
A8 == 1
AUCS2 == 2
\* coding groups by the upper bits
General(d) == d < 128                    \* 0xxx: general and automatic deletion
Reserved(d) == d \div 64 = 2              \* 10xx
Waiting7(d) == d \div 32 = 6              \* 110x: message waiting, default alphabet
Waiting16(d) == d \div 16 = 14            \* 1110: message waiting, UCS-2
ClassGroup(d) == d \div 16 = 15           \* 1111: data coding/message class

Alphabet(d) ==
  IF General(d) THEN IF Field(d, 2, 2) = 3 THEN A7 ELSE Field(d, 2, 2)
  ELSE IF Waiting16(d) THEN AUCS2
  ELSE IF ClassGroup(d) THEN Bit(d, 2)
  ELSE A7
AlphabetOk(d) == ~Reserved(d)

NoClass == 4
HasClass(d) == (General(d) /\ Bit(d, 4) = 1) \/ ClassGroup(d)
Class(d) == IF HasClass(d) THEN d % 4 ELSE NoClass

Compressed(d) == General(d) /\ Bit(d, 5) = 1

CanAlphabet(d, a) ==
  \/ General(d)
  \/ Waiting7(d) /\ a = A7
  \/ Waiting16(d) /\ a = AUCS2
  \/ ClassGroup(d) /\ a \in {A7, A8}
\* a result of setting the alphabet (bit 3 of the class group is reserved)
IsWithAlphabet(d, a, e) ==
  IF General(d) THEN e = SetField(d, 2, 2, a)
  ELSE IF ClassGroup(d) THEN SetField(e, 3, 1, 0) = SetField(SetField(d, 3, 1, 0), 2, 1, a)
  ELSE e = d
WithAlphabet(d, a) ==
  IF General(d) \/ ClassGroup(d) THEN SetField(d, 2, 2, a) ELSE d

CanClass(d, c) == General(d) \/ ClassGroup(d)
WithClass(d, c) == IF General(d) THEN SetField(SetField(d, 0, 2, c), 4, 1, 1) ELSE SetField(d, 0, 2, c)
=============================================================================

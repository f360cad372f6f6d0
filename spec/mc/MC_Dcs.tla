--------------------------------- MODULE MC_Dcs ---------------------------------
(* All 256 data coding schemes.                                                   *)
EXTENDS Small

Shares == 1..1
Inputs(i) == In1("dcs", {[d |-> d] : d \in 0..255})
Groups(d) == {g \in 1..5 : <<General(d), Reserved(d), Waiting7(d), Waiting16(d), ClassGroup(d)>>[g]}
Assigned(d) == ~(General(d) /\ Field(d, 2, 2) = 3) /\ ~(ClassGroup(d) /\ Bit(d, 3) = 1)
Guarantee(x) ==
  LET d == x.a.d IN
  /\ Cardinality(Groups(d)) = 1
  /\ Alphabet(d) \in {A7, A8, AUCS2} /\ Class(d) \in 0..4
  /\ AlphabetOk(d) = ~Reserved(d)
  \* setting what is set already changes nothing (but for reserved values)
  /\ CanAlphabet(d, Alphabet(d)) /\ Assigned(d) => WithAlphabet(d, Alphabet(d)) = d
  /\ HasClass(d) => CanClass(d, Class(d)) /\ WithClass(d, Class(d)) = d
  /\ \A a \in 0..2 : CanAlphabet(d, a) =>
       LET e == WithAlphabet(d, a) IN
       /\ e \in 0..255 /\ Alphabet(e) = a /\ IsWithAlphabet(d, a, e)
       /\ Groups(e) = Groups(d) /\ Class(e) = Class(d) /\ Compressed(e) = Compressed(d)
       /\ \A b \in 0..2 : CanAlphabet(e, b) = CanAlphabet(d, b)
       \* there and back
       /\ CanAlphabet(d, Alphabet(d)) /\ Assigned(d) => WithAlphabet(e, Alphabet(d)) = d
  \* a reserved group has no alphabet to set, and every other can keep its own
  /\ Reserved(d) => \A a \in 0..2 : ~CanAlphabet(d, a)
  /\ ~Reserved(d) => CanAlphabet(d, Alphabet(d))
  /\ \A c \in 0..3 : CanClass(d, c) =>
       LET e == WithClass(d, c) IN
       /\ e \in 0..255 /\ HasClass(e) /\ Class(e) = c
       /\ Alphabet(e) = Alphabet(d) /\ Compressed(e) = Compressed(d) /\ Groups(e) = Groups(d)
       \* alphabet and class can be set in either order
       /\ \A a \in 0..2 : CanAlphabet(d, a) => WithAlphabet(e, a) = WithClass(WithAlphabet(d, a), c)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

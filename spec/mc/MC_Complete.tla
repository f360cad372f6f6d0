------------------------------ MODULE MC_Complete ------------------------------
(* A set of segments is complete exactly if the Collector, given them in order,  *)
(* returns them all, as they are, with the last.                                 *)
EXTENDS Small, Collector

Odd == {[id |-> 0, d |-> <<1, 2>>], [id |-> 24, d |-> <<1>>]}
C8(ref, tot, seq) == ConcatIE(FALSE, ref, tot, seq)
C16(ref, tot, seq) == ConcatIE(TRUE, ref, tot, seq)
Headers == {<<>>}
   \cup {<<C8(r, t, s)>> : r \in {1, 2}, t \in {2, 3}, s \in 0..3}
   \cup {<<C16(1, t, s)>> : t \in {2, 3}, s \in 1..3}
   \cup {<<C8(1, t, 1)>> : t \in {0, 1, 4}}
   \cup {<<e>> : e \in Odd} \cup {<<e, C8(1, 2, 2)>> : e \in Odd} \cup {<<C8(1, 3, 1), C8(1, 2, 1)>>, <<C16(9, 2, 1), C8(1, 2, 1)>>}
Slots == {<<>>} \cup {<<h>> : h \in Headers}
Likely == {<<>>, <<<<>>>>, <<<<C8(1, 3, 1)>>>>, <<<<C8(1, 3, 2)>>>>, <<<<C8(1, 3, 3)>>>>, <<<<C8(2, 3, 2)>>>>, <<<<C16(1, 3, 3)>>>>, <<<<C8(1, 2, 2)>>>>}
Shares == 1..8
Deal(S) == LET q == SetToSeq(S) IN [i \in 1..8 |-> {q[k] : k \in {k \in 1..Len(q) : k % 8 = i - 1}}]
Firsts == Deal(Slots)
Inputs(i) ==
  In1("icm", {[segs |-> s] : s \in {<<a>> : a \in Firsts[i]} \cup {<<a, b>> : a \in Firsts[i], b \in Slots}
              \cup {<<a, b, c>> : a \in Firsts[i], b \in Q(Likely, Slots), c \in Q(Likely, Slots)}}
             \cup IF i = 1 THEN {[segs |-> <<>>]} ELSE {})

Feed(segs) ==
  FoldLeft(LAMBDA acc, i :
             LET s == CHOOSE s \in CollectSteps(acc.st, [id |-> i, ty |-> SUBMITTYPE, toa |-> 145, addr |-> <<49>>, udh |-> segs[i][1]], 0, 0) : TRUE
             IN [st |-> s.st, got |-> Append(acc.got, s.res.ids)],
           [st |-> Start, got |-> <<>>], [i \in 1..Len(segs) |-> i])
Guarantee(x) ==
  LET segs == x.a.segs
      n == Len(segs)
  IN IF n = 0 \/ (\E i \in 1..n : segs[i] = <<>>) THEN ~IsComplete(segs)
     ELSE LET f == Feed(segs)
              whole == f.got[n] = [i \in 1..n |-> i] /\ f.st.pool = {} /\ \A i \in 1..n-1 : f.got[i] = <<>>
          \* a "concatenation" of no segments, or one with a number other than 1, is collected as it is
          IN IF n = 1 /\ ConcatInfo(segs[1][1]).ok THEN IsComplete(segs) => whole
             ELSE IsComplete(segs) = whole

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

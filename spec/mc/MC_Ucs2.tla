-------------------------------- MODULE MC_Ucs2 --------------------------------
(* UTF-16: text survives, whole or cut anywhere between octet pairs.            *)
EXTENDS Small

Cs == {0, 65, 2047, 55295, 55296, 57343, 57344, 65533, 65535, 65536, 1114111}
Us == {0, 65, 55296, 56319, 56320, 57343, 65533}
Shares == 1..8
UnitSeqs == SetToSeq(Upto(Us, Q(4, 5)))
Inputs(i) ==
  IF i = 1 THEN In1("uenc", {[cps |-> c] : c \in Upto(Cs, Q(3, 4))})
  ELSE IF i = 2 THEN In1("udec", {[b |-> b] : b \in Upto({0, 65, 216, 220, 255}, Q(3, 5))})
  ELSE IF i < 8 THEN In1("udec", {[b |-> ToOctets(UnitSeqs[k])] : k \in {k \in 1..Len(UnitSeqs) : k % 5 = i - 3}})
  \* a text in two pieces, cut at every pair of octets
  ELSE {[k |-> "split",
         a |-> LET b == Ucs2Encode(c)
               IN [segs |-> <<[dcs |-> 8, udh |-> <<>>, ud |-> Take(b, 2 * n)],
                             [dcs |-> 8, udh |-> <<>>, ud |-> Rest(b, 2 * n)]>>,
                   def |-> FALSE, lock |-> <<>>, shift |-> <<>>, via |-> 0, whole |-> TRUE, cps |-> c]]
        : c \in Upto({65, 65533, 65536, 1114111}, Q(3, 4)), n \in 0..Q(6, 8)}

EncLaws(c) ==
  LET b == Ucs2Encode(c)
      d == Ucs2Decode(b)
  IN /\ Ones(b) /\ Len(b) % 2 = 0 /\ Len(b) \in 2 * Len(c)..4 * Len(c)
     /\ d.st = "ok" /\ d.b = [i \in 1..Len(c) |-> Sane(c[i])]
\* a surrogate left over is put before what follows
DecLaws(b) ==
  LET d == Ucs2Decode(b)
      n == Len(b)
  IN IF n % 2 = 1 THEN d.st = "odd"
     ELSE /\ Len(d.d) \in {0, 2} /\ (d.d # <<>> <=> d.st = "dangling")
          /\ d.d # <<>> => d.d = Rest(b, n - 2) /\ IsSurr(ToUnits(b)[n \div 2])
          /\ \A i \in 1..Len(d.b) : Sane(d.b[i]) = d.b[i]
          /\ Len(d.b) <= n \div 2
          /\ \A k \in 0..(n \div 2) :
               LET x == Ucs2Decode(Take(b, 2 * k))
                   y == Ucs2Decode(x.d \o Rest(b, 2 * k))
               IN x.b \o y.b = d.b /\ y.d = d.d
          \* well formed exactly if encoding gives the octets back
          /\ (\A i \in 1..Len(d.b) : d.b[i] # REPLACEMENT) /\ d.st = "ok" => Ucs2Encode(d.b) = b
\* cut in two, the text comes out whole: only the last piece may dangle
SplitLaws(a) == Decode(a.segs, <<>>, <<>>) = [st |-> "ok", b |-> Utf8(a.cps), d |-> <<>>]
Guarantee(x) == CASE x.k = "uenc" -> EncLaws(x.a.cps)
                  [] x.k = "udec" -> DecLaws(x.a.b)
                  [] x.k = "split" -> SplitLaws(x.a)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

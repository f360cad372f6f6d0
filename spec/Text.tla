--------------------------------- MODULE Text ---------------------------------
(* Choosing the alphabet and language of a text, and decoding user data.      *)
EXTENDS Segment

LockIE(n) == [id |-> LockingIEI, d |-> <<n>>]
ShiftIE(n) == [id |-> ShiftIEI, d |-> <<n>>]

\* the first n of the list for which P holds, as <<n>>, or <<>>
First(list, P(_)) == LET s == SelectSeq(list, P) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>
In(list, n) == \E i \in 1..Len(list) : list[i] = n

\* the choice for a text: alphabet, header elements, and the tables
Choose(cps, lock, shift) ==
  LET one == First(lock, LAMBDA n : Encodable(cps, n, 0))
      two == First(shift, LAMBDA n : Encodable(cps, 0, n))
      both == First(lock, LAMBDA n : In(shift, n) /\ Encodable(cps, n, n))
  IN IF Encodable(cps, 0, 0) THEN [alpha |-> A7, ies |-> <<>>, l |-> 0, s |-> 0]
     ELSE IF one # <<>> THEN [alpha |-> A7, ies |-> <<LockIE(one[1])>>, l |-> one[1], s |-> 0]
     ELSE IF two # <<>> THEN [alpha |-> A7, ies |-> <<ShiftIE(two[1])>>, l |-> 0, s |-> two[1]]
     ELSE IF both # <<>> THEN [alpha |-> A7, ies |-> <<LockIE(both[1]), ShiftIE(both[1])>>,
                               l |-> both[1], s |-> both[1]]
     ELSE [alpha |-> AUCS2, ies |-> <<>>, l |-> 0, s |-> 0]
IsUDOf(ud, cps, c) == IF c.alpha = A7 THEN IsEncoding(ud, cps, c.l, c.s) ELSE ud = Ucs2Encode(cps)

\* --- decoding: the tables a header names, where permitted -------------------------
LockOf(ies, lock) == LET n == NationalNLI(ies, LockingIEI) IN IF In(lock, n) THEN n ELSE 0
ShiftOf(ies, shift) == LET n == NationalNLI(ies, ShiftIEI) IN IF In(shift, n) THEN n ELSE 0

\* [st, b]: octets of text; st "ok", "err", "dangling" (d: the octets)
DecodeUD(ud, ies, alpha, lock, shift) ==
  IF alpha = A8 THEN [st |-> "ok", b |-> ud, d |-> <<>>]
  ELSE IF alpha = AUCS2
  THEN LET r == Ucs2Decode(ud)
       IN [st |-> IF r.st = "odd" THEN "err" ELSE r.st, b |-> Utf8(r.b), d |-> r.d]
  ELSE [st |-> "ok", b |-> Utf8(GsmDecode(ud, LockOf(ies, lock), ShiftOf(ies, shift), FALSE).b),
        d |-> <<>>]

ALLNLI == [i \in 1..13 |-> i]
\* segs: [dcs, udh, ud]; consecutive UCS-2 segments may share a surrogate pair,
\* but a surrogate before a segment of another alphabet is unpaired
Decode(segs, lock, shift) ==
  LET step(acc, s) ==
        IF acc.st = "err" THEN acc
        ELSE LET a == Alphabet(s.dcs)
                 lone == acc.d # <<>> /\ a # AUCS2
                 r == DecodeUD(IF lone THEN s.ud ELSE acc.d \o s.ud, s.udh, a, lock, shift)
             IN [st |-> r.st, d |-> r.d,
                 b |-> acc.b \o (IF lone THEN Utf8(<<REPLACEMENT>>) ELSE <<>>) \o r.b]
      res == FoldLeft(step, [st |-> "ok", b |-> <<>>, d |-> <<>>], segs)
  IN IF res.st = "dangling" THEN [res EXCEPT !.st = "err"] ELSE res
=============================================================================

-------------------------------- MODULE MC_Text --------------------------------
(* The choice of alphabet and language for a text, and reading it back.         *)
EXTENDS Small

\* in every default table, in the default extension, in few tables, in none
Cs == {65, 8364, 351, 286, 234, 193, 934, 2309, 1705, 20013, 128522}
Lists == {<<>>, <<1>>, <<3, 1>>, <<2>>, <<13, 6>>, ALLNLI}
Some == {<<>>, <<1>>, <<3, 2>>, ALLNLI}
Texts0 == Upto(Cs, 2)
Longer == {t \in [1..3 -> Q({65, 8364, 351, 193, 20013}, Cs)] : TRUE}
Ls == SetToSeq(Lists)
Shares == 1..12
Euds(ts, l) == In1("eud", {[cps |-> c, lock |-> l, shift |-> s, all |-> FALSE] : c \in ts, s \in Lists})
\* a text encoded as chosen, and decoded with other lists
Sent(c, l, s) ==
  LET x == Choose(c, l, s)
  IN [dcs |-> IF x.alpha = A7 THEN 0 ELSE 8, udh |-> x.ies,
      ud |-> IF x.alpha = A7 THEN GsmEncode(c, x.l, x.s) ELSE Ucs2Encode(c)]
Decs(ts, l) == In1("dec", {[segs |-> <<Sent(c, l, s)>>, def |-> FALSE, lock |-> dl, shift |-> ds, via |-> 0, whole |-> FALSE, cps |-> c] :
                           c \in ts, s \in Some, dl \in Some, ds \in Some})
Inputs(i) ==
  IF i <= 6 THEN Euds(Texts0 \cup Longer, Ls[i]) ELSE Decs(Q(Upto(Cs, 1) \cup {<<65, 351>>, <<286, 193>>, <<234, 65, 193>>}, Texts0), Ls[i - 6])

\* all the combinations permitted, in order of preference
Candidates(lock, shift) ==
  <<<<0, 0>>>> \o [i \in 1..Len(lock) |-> <<lock[i], 0>>] \o [i \in 1..Len(shift) |-> <<0, shift[i]>>]
  \o LET both == SelectSeq(lock, LAMBDA n : In(shift, n)) IN [i \in 1..Len(both) |-> <<both[i], both[i]>>]
ChoiceLaws(cps, lock, shift) ==
  LET c == Choose(cps, lock, shift)
      ok == SelectSeq(Candidates(lock, shift), LAMBDA p : Encodable(cps, p[1], p[2]))
      ud == IF c.alpha = A7 THEN GsmEncode(cps, c.l, c.s) ELSE Ucs2Encode(cps)
      Back(l, s) == DecodeUD(ud, c.ies, c.alpha, l, s) = [st |-> "ok", b |-> Utf8(cps), d |-> <<>>]
  IN /\ (c.alpha = A7) = (ok # <<>>) /\ c.alpha # A8
     /\ ok # <<>> => <<c.l, c.s>> = ok[1]
     \* the header names the tables, and only those that are not the default
     /\ HasIE(c.ies, LockingIEI) = (c.l # 0) /\ HasIE(c.ies, ShiftIEI) = (c.s # 0)
     /\ Len(c.ies) <= 2 /\ IsUDOf(ud, cps, c)
     /\ c.alpha = A7 => LockOf(c.ies, lock) = c.l /\ ShiftOf(c.ies, shift) = c.s
     \* whoever permits at least the same tables reads the same text
     /\ Back(lock, shift) /\ Back(ALLNLI, ALLNLI)
     \* permitting more, after what is permitted, never leads from 7 bit to UCS-2,
     \* nor from no tables to some
     /\ \A m \in {<<1>>, ALLNLI} :
          LET d == Choose(cps, lock \o m, shift \o m)
          IN /\ c.alpha = A7 => d.alpha = A7
             /\ <<c.l, c.s>> = <<0, 0>> /\ c.alpha = A7 => d = c
             /\ c.l # 0 /\ c.s = 0 => d = c
     \* order within the lists decides only between tables that both suffice
     /\ \A i \in 1..Len(cps) : c.alpha = A7 => Encodable(<<cps[i]>>, c.l, c.s)
\* tables that are not permitted are read as the default ones
DecLaws(a) ==
  LET s == a.segs[1]
      d == Decode(a.segs, a.lock, a.shift)
      l == NationalNLI(s.udh, LockingIEI)
      h == NationalNLI(s.udh, ShiftIEI)
  IN /\ d.st = "ok"
     /\ (In(a.lock, l) \/ l = -1) /\ (In(a.shift, h) \/ h = -1) => d.b = Utf8(a.cps)
     /\ ~In(a.lock, l) => d = Decode(<<[s EXCEPT !.udh = SelectSeq(@, LAMBDA e : e.id # LockingIEI)]>>, a.lock, a.shift)
     /\ ~In(a.shift, h) => d = Decode(<<[s EXCEPT !.udh = SelectSeq(@, LAMBDA e : e.id # ShiftIEI)]>>, a.lock, a.shift)
     \* in two segments, cut anywhere but in an escape or a pair, it is the same text
     /\ \A k \in 0..Len(s.ud) :
          (IF s.dcs = 0 THEN ~Mid(s.ud, A7, k) ELSE k % 2 = 0)
            => Decode(<<[s EXCEPT !.ud = Take(@, k)], [s EXCEPT !.ud = Rest(@, k)]>>, a.lock, a.shift) = d
Guarantee(x) == CASE x.k = "eud" -> ChoiceLaws(x.a.cps, x.a.lock, x.a.shift)
                  [] x.k = "dec" -> DecLaws(x.a)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

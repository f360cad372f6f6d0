------------------------------ MODULE MC_Encoder ------------------------------
(* Histories of calls on one Encoder: single, multi segment, empty, refused and *)
(* over-long messages, around the wrap of the counters.                         *)
EXTENDS Small

\* a template with a header such that a segment of a longer message has room for few septets
Filler(n) == <<[id |-> 36, d |-> [i \in 1..n |-> i]]>>
T1 == [ZeroTPDU EXCEPT !.dir = 1, !.fo = 65, !.udh = Filler(120), !.da = [toa |-> 145, a |-> <<49, 50>>], !.mr = 77]
O(name) == [o |-> name, n |-> 0, num |-> <<>>, ies |-> <<>>, nli |-> <<>>]
Opts == <<[o |-> "template", t |-> T1, n |-> 0, num |-> <<>>, ies |-> <<>>, nli |-> <<>>]>>
Dcs(n) == <<[O("dcs") EXCEPT !.n = n]>>
To == <<[O("to") EXCEPT !.num = <<43, 52>>]>>
Nli == <<[O("charset") EXCEPT !.nli = <<1>>]>>
Call(opts, cps) == [opts |-> opts, msg |-> Utf8(cps), cps |-> cps]
\* one segment; two; three with escapes; none; a conflict; too long; other alphabets and options
Menu == {Call(<<>>, <<65, 66>>), Call(<<>>, Rep(<<65, 66, 67>>, 18)), Call(To, Rep(<<65, 8364>>, 25)),
         Call(<<>>, <<>>), Call(Dcs(192), <<20013>>), Call(Nli, Rep(<<351, 65>>, 12)),
         Call(<<>>, Rep(<<20013, 128522>>, 9)), Call(Dcs(4), Rep(<<1, 2, 3>>, 20)),
         Call(<<[O("udh") EXCEPT !.ies = Filler(136)]>>, Rep(<<65>>, 9))}
Counts == {<<0, 0>>, <<254, 255>>, <<255, 254>>, <<65534, 65535>>}
Deal(S) == LET q == SetToSeq(S) IN [i \in 1..8 |-> {q[k] : k \in {k \in 1..Len(q) : k % 8 = i - 1}}]
Shares == 1..9
Mq == SetToSeq(Menu)
Inputs(i) == In1("hist", {[opts |-> Opts, calls |-> <<Mq[i]>> \o s, mr |-> c[1], cr |-> c[2], top |-> FALSE] :
                          s \in UNION {[1..n -> Menu] : n \in 0..Q(1, 2)}, c \in Counts})

Guarantee(x) ==
  LET a == x.a
      cs == HistoryOf(a.opts, a.calls, a.mr, a.cr)
      n == Len(cs)
      pd(i) == cs[i].pdus
      all == FlattenSeq([i \in 1..n |-> cs[i].pdus])
      Ok(h) == HistoryOk(a.opts, h, a.mr, a.cr)
      ref(p) == LET c == LastIE(p.udh, Concat8IEI) IN c.d[1]
      multi == {i \in 1..n : Len(pd(i)) > 1}
  IN /\ Ok(cs)
     \* references follow each other, and each is used by one message only
     /\ \A i \in 1..Len(all) : all[i].mr = (a.mr + i) % 256
     /\ \A i \in multi : /\ \A j \in 1..Len(pd(i)) : ref(pd(i)[j]) = (a.cr + Cardinality({k \in multi : k <= i})) % 256
     /\ \A i, j \in multi : i # j => ref(pd(i)[1]) # ref(pd(j)[1])
     \* each can be marshalled, and fits
     /\ \A i \in 1..Len(all) : Marshal(all[i]).ok /\ RoomOk(all[i])
     \* a history in which a count is lost, repeated or taken by a call that needs none is refused
     /\ n > 0 =>
          LET last == cs[n] IN
          /\ ~Ok([cs EXCEPT ![n].mr = @ + 1]) /\ ~Ok([cs EXCEPT ![n].cr = @ + 1])
          /\ last.pdus # <<>> => ~Ok([cs EXCEPT ![n].pdus[1].mr = (@ + 1) % 256])
          /\ last.pdus # <<>> => ~Ok([cs EXCEPT ![n].pdus[1].pid = 1])
          /\ Len(last.pdus) > 1 => ~Ok([cs EXCEPT ![n].pdus = Take(@, Len(@) - 1)])
          /\ last.err = "" => ~Ok([cs EXCEPT ![n].err = "toolong"])

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

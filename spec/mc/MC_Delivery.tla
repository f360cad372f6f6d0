------------------------------ MODULE MC_Delivery ------------------------------
(* From end to end: texts are encoded and marshalled, the octets arrive in any   *)
(* order, are unmarshalled, collected and decoded. Every order of arrival in     *)
(* each scenario is explored, and replayed in the code.                          *)
EXTENDS Sender, TLC, Json, IOUtils

CONSTANT Deep

\* --- scenarios -----------------------------------------------------------------------
\* headers that leave room for few septets in each segment
Filler(n) == <<[id |-> 36, d |-> [i \in 1..n |-> i]]>>
Template(ty, n, dcs, ad) ==
  [ZeroTPDU EXCEPT !.dir = ty % 2, !.fo = ty \div 2 + 64, !.udh = Filler(n), !.dcs = dcs,
                   !.da = IF ty = SUBMIT THEN ad ELSE @, !.oa = IF ty = DELIVER THEN ad ELSE @,
                   !.scts = IF ty = DELIVER THEN <<2020, 5, 6, 7, 8, 9, -3600>> ELSE @]
OptT(t) == [o |-> "template", t |-> t, n |-> 0, num |-> <<>>, ies |-> <<>>, nli |-> <<>>]
OptN(name, n, num, nli) == [o |-> name, n |-> n, num |-> num, ies |-> <<>>, nli |-> nli]
Se(t, more, mr, cr, wide) == [opts |-> <<OptT(t)>> \o more, mr |-> mr, cr |-> cr, wide |-> wide]
Ms(s, cps) == [s |-> s, opts |-> <<>>, msg |-> Utf8(cps), cps |-> cps]
N1 == [toa |-> 145, a |-> <<49, 50>>]
N2 == [toa |-> 129, a |-> <<49, 50>>]
N3 == [toa |-> 145, a |-> <<49, 50, 51>>]
W1 == [toa |-> 208, a |-> <<65, 66>>]
W2 == [toa |-> 208, a |-> <<65, 66, 64>>]
Rp(pat, n) == [i \in 1..n |-> pat[((i - 1) % Len(pat)) + 1]]
ABC == <<65, 66, 67>>
XYZ == <<88, 89, 90>>
One(t) == Se(t, <<>>, 3, 4, FALSE)
S120 == Template(SUBMIT, 120, 0, N1)
Scenarios == <<
  \* two messages of one sender, of two and of three segments
  [senders |-> <<One(S120)>>, msgs |-> <<Ms(1, Rp(ABC, 20)), Ms(1, Rp(XYZ, 33))>>],
  \* the same references to numbers that differ in their type only, and a short message
  [senders |-> <<One(S120), One(Template(SUBMIT, 120, 0, N2))>>, msgs |-> <<Ms(1, Rp(ABC, 22)), Ms(2, Rp(XYZ, 22)), Ms(1, <<65>>)>>],
  \* escapes at the boundaries
  [senders |-> <<One(S120)>>, msgs |-> <<Ms(1, Rp(<<8364>>, 15)), Ms(1, Rp(<<8364, 65>>, 15))>>],
  \* surrogate pairs at the boundaries
  [senders |-> <<One(Template(SUBMIT, 120, 8 - 8, N1))>>, msgs |-> <<Ms(1, Rp(<<20013, 128522>>, 8)), Ms(1, Rp(<<128522>>, 7))>>],
  \* references of 8 and of 16 bits
  [senders |-> <<Se(S120, <<>>, 0, 4, FALSE), Se(S120, <<>>, 0, 1029, TRUE)>>, msgs |-> <<Ms(1, Rp(ABC, 22)), Ms(2, Rp(XYZ, 22))>>],
  \* received, from senders named alike
  [senders |-> <<One(Template(DELIVER, 120, 0, W1)), One(Template(DELIVER, 120, 0, W2))>>, msgs |-> <<Ms(1, Rp(ABC, 21)), Ms(2, Rp(XYZ, 30))>>],
  \* languages, and octets
  [senders |-> <<Se(S120, <<OptN("charset", 0, <<>>, <<1>>)>>, 9, 9, FALSE), Se(S120, <<OptN("dcs", 4, <<>>, <<>>)>>, 9, 99, FALSE)>>,
   msgs |-> <<Ms(1, Rp(<<351, 286, 65>>, 20)), Ms(2, Rp(ABC, 22)), Ms(1, Rp(<<20013>>, 11))>>],
  \* submitted and delivered with the same reference
  [senders |-> <<One(Template(SUBMIT, 118, 0, N3)), One(Template(DELIVER, 118, 0, N3))>>, msgs |-> <<Ms(1, Rp(ABC, 24)), Ms(2, Rp(XYZ, 24))>>],
  \* at the wrap of the references
  [senders |-> <<Se(S120, <<>>, 255, 254, FALSE)>>, msgs |-> <<Ms(1, Rp(ABC, 21)), Ms(1, Rp(XYZ, 21))>>],
  \* a message that cannot be encoded between two that can
  [senders |-> <<One(Template(SUBMIT, 120, 192, N1))>>, msgs |-> <<Ms(1, Rp(ABC, 21)), Ms(1, <<20013>>), Ms(1, Rp(XYZ, 30))>>],
  \* only deep
  [senders |-> <<One(S120), One(Template(SUBMIT, 120, 0, N2))>>, msgs |-> <<Ms(1, Rp(ABC, 30)), Ms(2, Rp(XYZ, 30)), Ms(1, <<65>>)>>],
  [senders |-> <<One(S120)>>, msgs |-> <<Ms(1, Rp(ABC, 22)), Ms(1, Rp(XYZ, 22)), Ms(1, Rp(<<8364>>, 13))>>]
>>
Used == IF Deep THEN 1..12 ELSE 1..10

\* --- what is sent --------------------------------------------------------------------
EncodeAll(sc) ==
  LET step(acc, m) ==
        LET s == sc.senders[m.s]
            e == EncodeOf(Config(ZeroCfg, s.opts \o m.opts), m.msg, m.cps, s.wide, acc.mr[m.s], acc.cr[m.s])
        IN [mr |-> [acc.mr EXCEPT ![m.s] = e.mr], cr |-> [acc.cr EXCEPT ![m.s] = e.cr], out |-> Append(acc.out, e)]
      n == 1..Len(sc.senders)
  IN FoldLeft(step, [mr |-> [i \in n |-> sc.senders[i].mr], cr |-> [i \in n |-> sc.senders[i].cr], out |-> <<>>], sc.msgs).out
\* the octets of each TPDU, computed once
Encs == FoldLeft(LAMBDA a, i : Append(a, EncodeAll(Scenarios[i])), <<>>, [i \in 1..12 |-> i])
Wires == FoldLeft(LAMBDA a, i :
           Append(a, [m \in 1..Len(Encs[i]) |-> [q \in 1..Len(Encs[i][m].pdus) |->
                        [dir |-> Encs[i][m].pdus[q].dir, b |-> Marshal(Encs[i][m].pdus[q]).b]]]), <<>>, [i \in 1..12 |-> i])
Wants == FoldLeft(LAMBDA a, i :
           Append(a, [m \in 1..Len(Scenarios[i].msgs) |->
                        LET x == Scenarios[i].msgs[m]
                        IN TextOf(Config(ZeroCfg, Scenarios[i].senders[x.s].opts), x.msg, x.cps)]), <<>>, [i \in 1..12 |-> i])
Sent(i) == {<<m, q>> : m \in 1..Len(Wires[i]), q \in 1..10} \cap {<<m, q>> \in (1..10) \X (1..10) : m <= Len(Wires[i]) /\ q <= Len(Wires[i][m])}

\* --- arrival --------------------------------------------------------------------------
C == INSTANCE Collector
VARIABLES sc, air, st, texts
\* sc: the scenario; air: what has not arrived; st: the Collector; texts: <<message, text>> returned
vars == <<sc, air, st, texts>>
Read(i, x) == Unmarshal(Wires[i][x[1]][x[2]].dir, Wires[i][x[1]][x[2]].b).t
Peer(t) == IF TypeOf(t.fo, t.dir) = DELIVER THEN t.oa ELSE t.da
Pdu(i, x) == LET t == Read(i, x) IN [id |-> 100 * x[1] + x[2], ty |-> TypeOf(t.fo, t.dir), toa |-> Peer(t).toa, addr |-> Peer(t).a, udh |-> t.udh]
Seg(i, id) == LET t == Read(i, <<id \div 100, id % 100>>) IN [dcs |-> t.dcs, udh |-> t.udh, ud |-> t.ud]
Init == sc \in Used /\ air = Sent(sc) /\ st = C!Start /\ texts = {}
Arrival(x) ==
  \E s \in C!CollectSteps(st, Pdu(sc, x), 0, 0) :
    /\ air' = air \ {x} /\ sc' = sc /\ st' = s.st
    /\ texts' = IF s.res.ids = <<>> THEN texts
                ELSE texts \cup {<<x, [i \in 1..Len(s.res.ids) |-> s.res.ids[i]],
                                   Decode([i \in 1..Len(s.res.ids) |-> Seg(sc, s.res.ids[i])], ALLNLI, ALLNLI)>>}
Next == \E x \in air : Arrival(x)

Parts0(m) == {x \in Sent(sc) : x[1] = m}
Arrived(m) == Parts0(m) \cap air = {}
Inv ==
  \* what has been returned are whole messages, their texts as sent
  /\ \A t \in texts : LET m == t[1][1] IN
       /\ Arrived(m) /\ t[2] = [i \in 1..Len(Wires[sc][m]) |-> 100 * m + i]
       /\ t[3] = [st |-> "ok", b |-> Wants[sc][m], d |-> <<>>]
  \* all that have arrived whole are returned, once; nothing else is held
  /\ \A m \in 1..Len(Wires[sc]) : Cardinality({t \in texts : t[1][1] = m}) = IF Wires[sc][m] # <<>> /\ Arrived(m) THEN 1 ELSE 0
  /\ Cardinality(st.pool) = Cardinality({m \in 1..Len(Wires[sc]) : ~Arrived(m) /\ Cardinality(Parts0(m) \cap air) < Cardinality(Parts0(m))})
  /\ st.closed = FALSE /\ st.out = {}
\* what is sent is well formed, and more than one segment
WellSent == \A i \in 1..12 : \A m \in 1..Len(Encs[i]) : \A q \in 1..Len(Encs[i][m].pdus) :
              LET p == Encs[i][m].pdus[q] IN Marshal(p).ok /\ Len(MarshalUD(Alphabet(p.dcs), p.udh, p.ud).b) <= 141
ASSUME WellSent /\ \A i \in 1..12 : \E m \in 1..Len(Encs[i]) : Len(Encs[i][m].pdus) > 1

\* --- replay: all orders, or in the quick check those of at most 5 TPDUs -----------------
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o o : o \in Orders(S \ {x})} : x \in S}
\* orders of more are those in which the first three arrive in any order, and the rest as sorted
Some(S) == IF Cardinality(S) <= (IF Deep THEN 6 ELSE 5) THEN Orders(S)
           ELSE UNION {{o \o r : r \in {SetToSeq(S \ {o[i] : i \in 1..Len(o)}), Reverse(SetToSeq(S \ {o[i] : i \in 1..Len(o)}))}} :
                       o \in {<<x, y, z>> : x, y, z \in S} \cap {o \in [1..3 -> S] : Cardinality({o[1], o[2], o[3]}) = 3}}
Calls(i) == {[k |-> "e2e", a |-> [senders |-> Scenarios[i].senders, msgs |-> Scenarios[i].msgs, order |-> 5, at |-> o,
                                  seed |-> 0, rounds |-> 1, via |-> (Len(o) + o[1][2]) % 4]] : o \in Some(Sent(i))}
ASSUME IF "OUT" \in DOMAIN IOEnv /\ IOEnv.OUT # ""
       THEN ndJsonSerialize(IOEnv.OUT, FlattenSeq([i \in 1..Cardinality(Used) |-> SetToSeq(Calls(i))])) ELSE TRUE
=============================================================================

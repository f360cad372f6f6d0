----------------------------- MODULE MC_Collector -----------------------------
(* All histories of a Collector over a few TPDUs: the guarantees follow from   *)
(* the state machine.                                                          *)
EXTENDS Collector, TLC

CONSTANTS D,          \* the timeout, 0 for none
          MaxTime, MaxCollects, Handler, Kinds

\* segment q of n of a message: ref, peer, type
Pdu(id, ty, toa, addr, ref, n, q) ==
  [id |-> id, ty |-> ty, toa |-> toa, addr |-> addr, udh |-> <<[id |-> 0, d |-> <<ref, n, q>>]>>]
A(id, n, q) == Pdu(id, 0, 145, <<49>>, 1, n, q)
\* the TPDUs that may arrive, given an id when they do
KindOf(x, id) ==
  CASE x = "a1" -> A(id, 2, 1)
    [] x = "a2" -> A(id, 2, 2)
    [] x = "b1" -> A(id, 3, 1)            \* other total
    [] x = "b2" -> A(id, 3, 2)
    [] x = "b3" -> A(id, 3, 3)
    [] x = "c1" -> [A(id, 2, 1) EXCEPT !.ty = 3]
    [] x = "c2" -> [A(id, 2, 2) EXCEPT !.toa = 129]
    [] x = "single" -> [A(id, 2, 1) EXCEPT !.udh = <<>>]
    [] x = "zero" -> A(id, 2, 0)
    [] x = "over" -> A(id, 2, 3)
    [] x = "cmd" -> [A(id, 2, 1) EXCEPT !.ty = 5]

VARIABLES st, now, n,
          given,      \* id -> the TPDU collected
          last,       \* id -> the time of its acceptance
          ret,        \* the results of Collect, a sequence of [ids, call]
          dropped,    \* the messages expired
          handled,    \* the messages passed to the handler
          rejected    \* ids
vars == <<st, now, n, given, last, ret, dropped, handled, rejected>>

Init == /\ st = Start /\ now = 0 /\ n = 0
        /\ given = <<>> /\ last = <<>> /\ ret = <<>> /\ dropped = <<>> /\ handled = <<>> /\ rejected = {}
CollectIt(x) ==
  /\ n < MaxCollects
  /\ LET p == KindOf(x, n + 1) IN
     \E s \in CollectSteps(st, p, now, D) :
        /\ st' = s.st
        /\ given' = Append(given, p) /\ last' = Append(last, now)
        /\ ret' = IF s.res.ids # <<>> THEN Append(ret, s.res.ids) ELSE ret
        /\ rejected' = IF s.res.err # "" THEN rejected \cup {n + 1} ELSE rejected
        /\ (s.res.err # "" => s.st = st /\ s.res.ids = <<>>)
  /\ n' = n + 1 /\ UNCHANGED <<now, dropped, handled>>
Tick == /\ now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<st, n, given, last, ret, dropped, handled, rejected>>
Expire == /\ \E m \in st.pool : /\ MayExpire(st, m, now)
                                /\ st' = ExpireStep(st, m, Handler)
                                /\ dropped' = Append(dropped, [m |-> m, at |-> now])
          /\ UNCHANGED <<now, n, given, last, ret, handled, rejected>>
Handle == /\ \E o \in st.out : st' = HandleStep(st, o[1]) /\ handled' = Append(handled, o[1])
          /\ UNCHANGED <<now, n, given, last, ret, dropped, rejected>>
Close == /\ ~st.closed /\ st' = CloseStep(st, now) /\ UNCHANGED <<now, n, given, last, ret, dropped, handled, rejected>>
Next == (\E x \in Kinds : CollectIt(x)) \/ Tick \/ Expire \/ Handle \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Expire) /\ WF_vars(Handle)

\* --- what follows ---------------------------------------------------------------
Ids(slots) == {slots[i] : i \in 1..Len(slots)} \ {0}
InPool == UNION {Ids(m.slots) : m \in st.pool}
Returned == UNION {Ids(ret[i]) : i \in 1..Len(ret)}
Dropped == UNION {Ids(dropped[i].m.slots) : i \in 1..Len(dropped)}
Sum(s, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, s)
\* every TPDU given is in exactly one place: held, returned, expired or rejected
ExactlyOnce ==
  /\ InPool \cup Returned \cup Dropped \cup rejected = 1..n
  /\ Cardinality(InPool) + Cardinality(Returned) + Cardinality(Dropped) + Cardinality(rejected) = n
  /\ Sum(ret, Len) = Cardinality(Returned)
  /\ Sum(dropped, LAMBDA x : Cardinality(Ids(x.m.slots))) = Cardinality(Dropped)
SameMessage(p, q) == p.ty = q.ty /\ p.toa = q.toa /\ p.addr = q.addr
                     /\ ConcatInfo(p.udh).total = ConcatInfo(q.udh).total
                     /\ ConcatInfo(p.udh).ref = ConcatInfo(q.udh).ref
InPlaces(slots) == \A i, h \in 1..Len(slots) :
    slots[i] # 0 => /\ ConcatInfo(given[slots[i]].udh).seqno = i
                    /\ ConcatInfo(given[slots[i]].udh).total = Len(slots)
                    /\ slots[h] # 0 => SameMessage(given[slots[i]], given[slots[h]])
\* results are complete messages in order, or single TPDUs
Whole == \A i \in 1..Len(ret) :
    \/ Len(ret[i]) = 1 /\ ~Concatenated(given[ret[i][1]])
    \/ Len(ret[i]) >= 2 /\ Full(ret[i]) /\ InPlaces(ret[i])
PoolOk == /\ \A m \in st.pool : InPlaces(m.slots) /\ ~Full(m.slots) /\ Ids(m.slots) # {}
          /\ \A m1, m2 \in st.pool : m1 # m2 => m1.key # m2.key /\ m1.slots # m2.slots
\* nothing complete is ever left in the pool, and the last one given completes it
LastCompletes == \A i \in 1..Len(ret) : \A h \in Ids(ret[i]) : h <= Max(Ids(ret[i]))
\* expiry is not early: every segment held had been accepted D before
NotEarly == \A i \in 1..Len(dropped) :
    /\ D > 0 /\ ~Full(dropped[i].m.slots) /\ InPlaces(dropped[i].m.slots)
    /\ \A h \in Ids(dropped[i].m.slots) : last[h] + D <= dropped[i].at
HandledOnce == /\ ~Handler => handled = <<>> /\ st.out = {}
               /\ Handler => Len(handled) + Cardinality(st.out) = Len(dropped)
               /\ \A i \in 1..Len(handled) : \E h \in 1..Len(dropped) : dropped[h].m.slots = handled[i]
\* --- and no history has more in it than those of Reassembly --------------------
CoreArrivals == {<<i, KindOf(x, i)>> : i \in 1..MaxCollects, x \in Kinds}
CorePart(a) == Concatenated(a[2])
CoreFit(a) == Faults(a[2]) = {}
CoreKey(a) == KeyOf(a[2])
CoreSeq(a) == ConcatInfo(a[2].udh).seqno
CoreTotal(k) == k[4]
CoreKeys == {CoreKey(a) : a \in {b \in CoreArrivals : CorePart(b)}}
As(ids) == {<<i, given[i]>> : i \in ids}
Core == INSTANCE Reassembly WITH
  Arrivals <- CoreArrivals, Keys <- CoreKeys, KeyOf <- CoreKey, SeqOf <- CoreSeq, Total <- CoreTotal,
  Part <- CorePart, Fit <- CoreFit,
  seen <- As(1..n), closed <- st.closed,
  pool <- [k \in CoreKeys |-> As(UNION {Ids(m.slots) : m \in Held(st, k)})],
  returned <- {As(Ids(ret[i])) : i \in 1..Len(ret)},
  dropped <- {As(Ids(dropped[i].m.slots)) : i \in 1..Len(dropped)},
  rejected <- As(rejected)
ASSUME Core!Usable
Refines == Core!Spec
CoreInv == Core!Inv

\* what is due is eventually expired and handled, unless closed first
Overdue == \E m \in st.pool : m.due >= 0 /\ m.due <= now
EventuallyExpired == [](Overdue => <>(~Overdue \/ st.closed))
EventuallyHandled == [](st.out # {} => <>(st.out = {}))
=============================================================================

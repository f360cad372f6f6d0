------------------------------ MODULE Collector ------------------------------
(* The reassembly of concatenated messages, as a state machine in which each  *)
(* call and each expiry takes effect at one instant.                           *)
(*                                                                             *)
(* A TPDU p is [id, ty, toa, addr, udh]: id stands for its contents.           *)
(* The state is [closed, at, pool, out]: pool holds the incomplete messages    *)
(* [key, slots, due], a slot is the id of the segment held or 0, due is the    *)
(* earliest time of expiry, or -1; out are the messages <<slots, number>> that  *)
(* have expired and are not yet passed to the handler (the same segments can   *)
(* expire several times); at is the time of closing.                           *)
EXTENDS Header

DELIVERTYPE == 0
SUBMITTYPE == 3
Start == [closed |-> FALSE, at |-> 0, pool |-> {}, out |-> {}]

KeyOf(p) == LET c == ConcatInfo(p.udh) IN <<p.ty, p.toa, p.addr, c.total, c.ref>>
Concatenated(p) == ConcatInfo(p.udh).ok /\ ConcatInfo(p.udh).total >= 2
Res(err, ids) == [err |-> err, ids |-> ids]
\* reasons to reject a TPDU whatever is held
Faults(p) ==
  LET c == ConcatInfo(p.udh) IN
  (IF c.seqno < 1 \/ c.seqno > c.total THEN {"incons"} ELSE {})
  \cup (IF p.ty \notin {DELIVERTYPE, SUBMITTYPE} THEN {"unsup"} ELSE {})
Held(st, k) == {m \in st.pool : m.key = k}
Empty(p) == [key |-> KeyOf(p), slots |-> [i \in 1..ConcatInfo(p.udh).total |-> 0], due |-> -1]
Full(slots) == \A i \in 1..Len(slots) : slots[i] # 0

\* what collecting p at time t may do: a set of [st, res]; d is the timeout
CollectSteps(st, p, t, d) ==
  IF st.closed THEN {[st |-> st, res |-> Res("closed", <<>>)]}
  ELSE IF ~Concatenated(p) THEN {[st |-> st, res |-> Res("", <<p.id>>)]}
  ELSE IF Faults(p) # {} THEN {[st |-> st, res |-> Res(f, <<>>)] : f \in Faults(p)}
  ELSE LET h == Held(st, KeyOf(p))
           m == IF h = {} THEN Empty(p) ELSE CHOOSE x \in h : TRUE
           q == ConcatInfo(p.udh).seqno
           s == [m.slots EXCEPT ![q] = p.id]
       IN IF m.slots[q] # 0 THEN {[st |-> st, res |-> Res("dup", <<>>)]}
          ELSE IF Full(s) THEN {[st |-> [st EXCEPT !.pool = @ \ h], res |-> Res("", s)]}
          ELSE {[st |-> [st EXCEPT !.pool = (@ \ h) \cup {[m EXCEPT !.slots = s, !.due = IF d = 0 THEN -1 ELSE t + d]}],
                 res |-> Res("", <<>>)]}
\* what Pipes returns, as a set: no two messages hold the same segments
Snapshot(st) == {m.slots : m \in st.pool}
CloseStep(st, t) == IF st.closed THEN st ELSE [st EXCEPT !.closed = TRUE, !.at = t]
\* m may expire at time t: its timeout was reached, and before closing
MayExpire(st, m, t) == m.due >= 0 /\ m.due <= t /\ (st.closed => m.due <= st.at)
Outstanding(st, slots) == Cardinality({o \in st.out : o[1] = slots})
ExpireStep(st, m, handler) ==
  [st EXCEPT !.pool = @ \ {m}, !.out = IF handler THEN @ \cup {<<m.slots, 1 + Outstanding(st, m.slots)>>} ELSE @]
MayHandle(st, slots) == Outstanding(st, slots) > 0
HandleStep(st, slots) == [st EXCEPT !.out = @ \ {<<slots, Outstanding(st, slots)>>}]
\* nothing is overdue at time t
Settled(st, t) == st.out = {} /\ (st.closed \/ \A m \in st.pool : ~MayExpire(st, m, t))
\* nothing may happen any more
Quiet(st) == st.out = {} /\ (st.closed \/ \A m \in st.pool : m.due < 0)
=============================================================================

----------------------------- MODULE Reassembly -----------------------------
(* What a Collector does with what arrives, without its clock, for any number  *)
(* of arrivals, messages and segments: an arrival is rejected, returned, held, *)
(* or dropped with what is held with it. That the guarantees follow is proved  *)
(* in ReassemblyProofs; that Collector does no more than this is checked with  *)
(* TLC for all histories within its bounds (MC_Collector).                     *)
EXTENDS Naturals

CONSTANTS Arrivals,   \* each distinct from all others
          Keys,       \* of messages
          KeyOf(_), SeqOf(_),
          Total(_),   \* segments, by key
          Part(_),    \* is part of a concatenated message
          Fit(_)      \* and can be used
Usable ==
  \A a \in Arrivals : Part(a) /\ Fit(a) => KeyOf(a) \in Keys /\ SeqOf(a) \in 1..Total(KeyOf(a))
ASSUME Params == Usable

VARIABLES seen, closed, pool, returned, dropped, rejected
vars == <<seen, closed, pool, returned, dropped, rejected>>

Places(s) == {SeqOf(a) : a \in s}
Init == /\ seen = {} /\ closed = FALSE /\ pool = [k \in Keys |-> {}]
        /\ returned = {} /\ dropped = {} /\ rejected = {}

Rejects(a) == closed \/ (Part(a) /\ ~Fit(a)) \/ (Part(a) /\ Fit(a) /\ SeqOf(a) \in Places(pool[KeyOf(a)]))
Reject(a) == /\ Rejects(a)
             /\ rejected' = rejected \cup {a}
             /\ UNCHANGED <<pool, returned>>
Single(a) == /\ ~Rejects(a) /\ ~Part(a)
             /\ returned' = returned \cup {{a}}
             /\ UNCHANGED <<pool, rejected>>
With(a) == pool[KeyOf(a)] \cup {a}
Finish(a) == /\ ~Rejects(a) /\ Part(a)
             /\ Places(With(a)) = 1..Total(KeyOf(a))
             /\ returned' = returned \cup {With(a)}
             /\ pool' = [pool EXCEPT ![KeyOf(a)] = {}]
             /\ UNCHANGED rejected
Hold(a) == /\ ~Rejects(a) /\ Part(a)
           /\ Places(With(a)) # 1..Total(KeyOf(a))
           /\ pool' = [pool EXCEPT ![KeyOf(a)] = With(a)]
           /\ UNCHANGED <<returned, rejected>>
Collect(a) == /\ a \notin seen
              /\ seen' = seen \cup {a}
              /\ UNCHANGED <<closed, dropped>>
              /\ Reject(a) \/ Single(a) \/ Finish(a) \/ Hold(a)
Expire(k) == /\ pool[k] # {}
             /\ dropped' = dropped \cup {pool[k]}
             /\ pool' = [pool EXCEPT ![k] = {}]
             /\ UNCHANGED <<seen, closed, returned, rejected>>
Close == closed' = TRUE /\ UNCHANGED <<seen, pool, returned, dropped, rejected>>
Next == (\E a \in Arrivals : Collect(a)) \/ (\E k \in Keys : Expire(k)) \/ Close
Spec == Init /\ [][Next]_vars

(* --- the guarantees ------------------------------------------------------- *)
Types == /\ seen \subseteq Arrivals /\ closed \in BOOLEAN
         /\ pool \in [Keys -> SUBSET seen]
         /\ returned \subseteq SUBSET seen /\ dropped \subseteq SUBSET seen /\ rejected \subseteq seen
\* segments of one message, each in a place of its own
Unmixed(s, k) == /\ \A a \in s : Part(a) /\ Fit(a) /\ KeyOf(a) = k
                 /\ \A a, b \in s : SeqOf(a) = SeqOf(b) => a = b
Held == \A k \in Keys : Unmixed(pool[k], k) /\ (pool[k] # {} => Places(pool[k]) # 1..Total(k))
\* what is returned is a TPDU on its own, or all segments of a message and no other
Whole == \A s \in returned : \/ \E a \in Arrivals : s = {a} /\ ~Part(a)
                             \/ \E k \in Keys : Unmixed(s, k) /\ Places(s) = 1..Total(k)
\* what is dropped is some segments of a message, not all
Partial == \A s \in dropped : \E k \in Keys : s # {} /\ Unmixed(s, k) /\ Places(s) # 1..Total(k)
\* every arrival is in one place
Apart(S, T) == \A s \in S, t \in T : \A a \in s : a \notin t
Once == /\ \A s, t \in returned : s # t => \A a \in s : a \notin t
        /\ \A s, t \in dropped : s # t => \A a \in s : a \notin t
        /\ Apart(returned, dropped)
        /\ \A a \in rejected : \A s \in returned \cup dropped : a \notin s
        /\ \A k \in Keys : \A a \in pool[k] : a \notin rejected /\ \A s \in returned \cup dropped : a \notin s
\* and none is lost
Kept == \A a \in seen : \/ a \in rejected
                        \/ \E s \in returned \cup dropped : a \in s
                        \/ \E k \in Keys : a \in pool[k]
Inv == Types /\ Held /\ Whole /\ Partial /\ Once /\ Kept
=============================================================================

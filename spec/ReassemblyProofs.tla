-------------------------- MODULE ReassemblyProofs --------------------------
(* Of any number of arrivals, messages and segments: checked by tlapm.         *)
EXTENDS Reassembly, TLAPS

THEOREM Safe == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, Types, Held, Whole, Partial, Once, Apart, Kept, Unmixed, Places
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>0. ASSUME UNCHANGED vars PROVE Inv'
    BY <2>0 DEF vars, Inv, Types, Held, Whole, Partial, Once, Apart, Kept, Unmixed, Places
  <2>1. ASSUME NEW a \in Arrivals, a \notin seen, Reject(a), seen' = seen \cup {a}, UNCHANGED <<closed, dropped>> PROVE Inv'
    <3>1. Types' BY <2>1 DEF Inv, Types, Reject
    <3>2. Held' BY <2>1 DEF Inv, Held, Reject, Unmixed, Places
    <3>3. Whole' BY <2>1 DEF Inv, Whole, Reject, Unmixed, Places
    <3>4. Partial' BY <2>1 DEF Inv, Partial, Reject, Unmixed, Places
    <3>5. Once' BY <2>1 DEF Inv, Types, Once, Apart, Reject
    <3>6. Kept' BY <2>1 DEF Inv, Kept, Reject
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>2. ASSUME NEW a \in Arrivals, a \notin seen, Single(a), seen' = seen \cup {a}, UNCHANGED <<closed, dropped>> PROVE Inv'
    <3>1. Types' BY <2>2 DEF Inv, Types, Single
    <3>2. Held' BY <2>2 DEF Inv, Held, Single, Unmixed, Places
    <3>3. Whole' BY <2>2 DEF Inv, Whole, Single, Unmixed, Places
    <3>4. Partial' BY <2>2 DEF Inv, Partial, Single, Unmixed, Places
    <3>5. Once' BY <2>2 DEF Inv, Types, Once, Apart, Single
    <3>6. Kept' BY <2>2 DEF Inv, Kept, Single
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>3. ASSUME NEW a \in Arrivals, a \notin seen, Finish(a), seen' = seen \cup {a}, UNCHANGED <<closed, dropped>> PROVE Inv'
    <3>0. Fit(a) /\ KeyOf(a) \in Keys /\ SeqOf(a) \notin Places(pool[KeyOf(a)])
      BY <2>3, Params DEF Usable, Finish, Rejects
    <3>a. Unmixed(With(a), KeyOf(a))
      BY <2>3, <3>0 DEF Inv, Held, Finish, With, Unmixed, Places
    <3>1. Types' BY <2>3, <3>0 DEF Inv, Types, Finish, With
    <3>2. Held' BY <2>3, <3>0 DEF Inv, Types, Held, Finish, Unmixed, Places
    <3>3. Whole' BY <2>3, <3>0, <3>a DEF Inv, Whole, Finish, Unmixed, Places
    <3>4. Partial' BY <2>3 DEF Inv, Partial, Finish, Unmixed, Places
    <3>5. Once' BY <2>3, <3>0 DEF Inv, Types, Once, Apart, Finish, With, Held, Unmixed
    <3>6. Kept' BY <2>3, <3>0 DEF Inv, Types, Kept, Finish, With
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>4. ASSUME NEW a \in Arrivals, a \notin seen, Hold(a), seen' = seen \cup {a}, UNCHANGED <<closed, dropped>> PROVE Inv'
    <3>0. Fit(a) /\ KeyOf(a) \in Keys /\ SeqOf(a) \notin Places(pool[KeyOf(a)])
      BY <2>4, Params DEF Usable, Hold, Rejects
    <3>a. Unmixed(With(a), KeyOf(a))
      BY <2>4, <3>0 DEF Inv, Held, Hold, With, Unmixed, Places
    <3>1. Types' BY <2>4, <3>0 DEF Inv, Types, Hold, With
    <3>2. Held' BY <2>4, <3>0, <3>a DEF Inv, Types, Held, Hold, Unmixed, Places
    <3>3. Whole' BY <2>4 DEF Inv, Whole, Hold, Unmixed, Places
    <3>4. Partial' BY <2>4 DEF Inv, Partial, Hold, Unmixed, Places
    <3>5. Once' BY <2>4, <3>0 DEF Inv, Types, Once, Apart, Hold, With
    <3>6. Kept' BY <2>4, <3>0 DEF Inv, Types, Kept, Hold, With
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>5. ASSUME NEW k \in Keys, Expire(k) PROVE Inv'
    <3>1. Types' BY <2>5 DEF Inv, Types, Expire
    <3>2. Held' BY <2>5 DEF Inv, Types, Held, Expire, Unmixed, Places
    <3>3. Whole' BY <2>5 DEF Inv, Whole, Expire, Unmixed, Places
    <3>4. Partial' BY <2>5 DEF Inv, Types, Held, Partial, Expire, Unmixed, Places
    <3>5. Once' BY <2>5 DEF Inv, Types, Once, Apart, Expire, Held, Unmixed
    <3>6. Kept' BY <2>5 DEF Inv, Types, Kept, Expire
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2>6. ASSUME Close PROVE Inv'
    BY <2>6 DEF Close, Inv, Types, Held, Whole, Partial, Once, Apart, Kept, Unmixed, Places
  <2> QED BY <2>0, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next, Collect
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* an arrival is rejected for good reason, and changes nothing else
THEOREM RejectedHarmless ==
  ASSUME NEW a \in Arrivals, Reject(a) PROVE pool' = pool /\ returned' = returned
BY DEF Reject
\* the segment that completes a message is returned with all of it, at once
THEOREM AtOnce ==
  ASSUME Inv, NEW a \in Arrivals, Collect(a), a \notin rejected', Part(a),
         Places(With(a)) = 1..Total(KeyOf(a))
  PROVE  With(a) \in returned'
BY DEF Collect, Reject, Single, Finish, Hold
=============================================================================

----------------------------- MODULE MC_Counters -----------------------------
(* Concurrent calls on one Encoder, each taking its counts one by one in any    *)
(* interleaving: the counts issued are as SharedRec demands. With Atomic FALSE, *)
(* counting is a read and then a write, and they are not.                       *)
EXTENDS Sharing, TLC

CONSTANTS Clients, Lens, Calls, Mr0, Cr0, Atomic

VARIABLES mr, cr, left, need, hold, mrs, refs
\* left[c]: calls yet to be made; need[c]: counts the call under way still
\* needs, of [ref, seg]; hold[c]: <<counter, value read>>, if not Atomic
vars == <<mr, cr, left, need, hold, mrs, refs>>
Idle == [ref |-> 0, seg |-> 0]
Init == /\ mr = Mr0 /\ cr = Cr0
        /\ left = [c \in Clients |-> Calls] /\ need = [c \in Clients |-> Idle] /\ hold = [c \in Clients |-> <<>>]
        /\ mrs = [c \in Clients |-> <<>>] /\ refs = [c \in Clients |-> <<>>]
Call(c) == /\ need[c] = Idle /\ left[c] > 0
           /\ \E n \in Lens : need' = [need EXCEPT ![c] = [ref |-> IF n > 1 THEN 1 ELSE 0, seg |-> n]]
           /\ left' = [left EXCEPT ![c] = @ - 1]
           /\ UNCHANGED <<mr, cr, hold, mrs, refs>>
\* which counter is next: the reference before the segments
Wants(c) == IF need[c].ref > 0 THEN "cr" ELSE IF need[c].seg > 0 THEN "mr" ELSE ""
TakeIt(c, v) ==
  IF Wants(c) = "cr"
  THEN /\ cr' = v /\ refs' = [refs EXCEPT ![c] = Append(@, v % 256)] /\ need' = [need EXCEPT ![c].ref = 0]
       /\ UNCHANGED <<mr, mrs>>
  ELSE /\ mr' = v /\ mrs' = [mrs EXCEPT ![c] = Append(@, v % 256)] /\ need' = [need EXCEPT ![c].seg = @ - 1]
       /\ UNCHANGED <<cr, refs>>
Now(c) == IF Wants(c) = "cr" THEN cr ELSE mr
CountIt(c) == /\ Atomic /\ Wants(c) # "" /\ TakeIt(c, Now(c) + 1) /\ UNCHANGED <<left, hold>>
Read(c) == /\ ~Atomic /\ Wants(c) # "" /\ hold[c] = <<>> /\ hold' = [hold EXCEPT ![c] = <<Now(c)>>]
           /\ UNCHANGED <<mr, cr, left, need, mrs, refs>>
Write(c) == /\ ~Atomic /\ hold[c] # <<>> /\ TakeIt(c, hold[c][1] + 1) /\ hold' = [hold EXCEPT ![c] = <<>>] /\ UNCHANGED left
Next == \E c \in Clients : Call(c) \/ CountIt(c) \/ Read(c) \/ Write(c)
Spec == Init /\ [][Next]_vars

Done == \A c \in Clients : left[c] = 0 /\ need[c] = Idle
All(s) == FlattenSeq([c \in 1..Cardinality(Clients) |-> s[c]])
From(s, v) == [i \in 1..Len(s) |-> Since(s[i], v)]
\* counts are issued once each, none is lost
Issued == Done => /\ EachOnce(All(mrs), mr - Mr0, Mr0) /\ EachOnce(All(refs), cr - Cr0, Cr0)
                  /\ \A c \in Clients : Ascending(From(mrs[c], Mr0)) /\ Ascending(From(refs[c], Cr0))
=============================================================================

------------------------------- MODULE MC_Lazy -------------------------------
(* Tables generated on first use, by concurrent users: with the lock held      *)
(* while a table is looked for and filled, every user has the whole table, and *)
(* all have the same one. Without (Locked FALSE), not.                         *)
EXTENDS Naturals, FiniteSets

CONSTANTS Users, Tables, Entries, Locked

VARIABLES lock,      \* the user that holds it, or 0
          at,        \* at[t]: the table that the variable of t refers to, 0 if none
          fill,      \* fill[i]: the entries of table i so far
          pc, want, mine, saw
vars == <<lock, at, fill, pc, want, mine, saw>>
\* every user may make one of each table
Ids == Users \X Tables
None == <<0, 0>>
Init == /\ lock = 0 /\ at = [t \in Tables |-> None] /\ fill = [i \in Ids |-> 0]
        /\ pc = [u \in Users |-> "idle"] /\ want = [u \in Users |-> 0]
        /\ mine = [u \in Users |-> None]
        /\ saw = {}                          \* <<table, its identity, entries>> as used
Go(u, s) == pc' = [pc EXCEPT ![u] = s]
Start(u) == /\ pc[u] = "idle" /\ \E t \in Tables : want' = [want EXCEPT ![u] = t]
            /\ Go(u, "lock") /\ UNCHANGED <<lock, at, fill, mine, saw>>
Lock(u) == /\ pc[u] = "lock" /\ (Locked => lock = 0)
           /\ lock' = (IF Locked THEN u ELSE 0) /\ Go(u, "look") /\ UNCHANGED <<at, fill, want, mine, saw>>
\* none yet: the variable refers to the new one at once, or only when it is full
Look(u) == /\ pc[u] = "look"
           /\ IF at[want[u]] = None
              THEN /\ Go(u, "fill") /\ at' = [at EXCEPT ![want[u]] = <<u, want[u]>>]
                   /\ fill' = [fill EXCEPT ![<<u, want[u]>>] = 0] /\ UNCHANGED mine
              ELSE Go(u, "unlock") /\ mine' = [mine EXCEPT ![u] = at[want[u]]] /\ UNCHANGED <<at, fill>>
           /\ UNCHANGED <<lock, want, saw>>
Fill(u) == /\ pc[u] = "fill"
           /\ IF fill[<<u, want[u]>>] < Entries
              THEN fill' = [fill EXCEPT ![<<u, want[u]>>] = @ + 1] /\ UNCHANGED <<pc, mine>>
              ELSE Go(u, "unlock") /\ mine' = [mine EXCEPT ![u] = <<u, want[u]>>] /\ UNCHANGED fill
           /\ UNCHANGED <<lock, at, want, saw>>
Unlock(u) == /\ pc[u] = "unlock" /\ lock' = (IF Locked THEN 0 ELSE lock) /\ Go(u, "use")
             /\ UNCHANGED <<at, fill, want, mine, saw>>
Use(u) == /\ pc[u] = "use" /\ saw' = saw \cup {<<want[u], mine[u], fill[mine[u]]>>} /\ Go(u, "idle")
          /\ UNCHANGED <<lock, at, fill, want, mine>>
Next == \E u \in Users : Start(u) \/ Lock(u) \/ Look(u) \/ Fill(u) \/ Unlock(u) \/ Use(u)
Spec == Init /\ [][Next]_vars

Whole == \A x \in saw : x[3] = Entries
Same == \A x, y \in saw : x[1] = y[1] => x[2] = y[2]
\* no table is read while another fills it, or filled by two
NoRace == \A u, v \in Users : u # v /\ pc[u] = "fill" => ~(pc[v] \in {"look", "fill"} /\ want[v] = want[u])
=============================================================================

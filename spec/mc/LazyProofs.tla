----------------------------- MODULE LazyProofs ------------------------------
(* Tables made on first use, for any number of users and tables: with the lock *)
(* held while a table is looked for and filled, every user has the whole       *)
(* table, and all the same. Checked by tlapm.                                  *)
EXTENDS MC_Lazy, TLAPS

ASSUME Params == 0 \notin Users /\ Entries \in Nat /\ Locked = TRUE

Types == /\ pc \in [Users -> {"idle", "lock", "look", "fill", "unlock", "use"}]
         /\ at \in [Tables -> Ids \cup {None}]
         /\ fill \in [Ids -> 0..Entries]
         /\ mine \in [Users -> Ids \cup {None}]
         /\ DOMAIN want = Users
         /\ saw \subseteq Tables \X Ids \X Nat
Wants == \A u \in Users : pc[u] # "idle" => want[u] \in Tables
Exclusive == \A u \in Users : pc[u] \in {"look", "fill", "unlock"} => lock = u
Own == \A u \in Users : pc[u] = "fill" => at[want[u]] = <<u, want[u]>>
Full == \A t \in Tables : at[t] # None =>
          fill[at[t]] = Entries \/ \E u \in Users : pc[u] = "fill" /\ want[u] = t
Mine == \A u \in Users : pc[u] \in {"unlock", "use"} =>
          mine[u] = at[want[u]] /\ mine[u] # None /\ fill[mine[u]] = Entries
Used == \A x \in saw : at[x[1]] = x[2] /\ x[3] = Entries
Inv == Types /\ Wants /\ Exclusive /\ Own /\ Full /\ Mine /\ Used

\* which table is whose
Named == \A t \in Tables : at[t] # None => at[t][2] = t
LEMMA Apart == \A u \in Users, t \in Tables : <<u, t>> # None /\ <<u, t>> \in Ids
<1> SUFFICES ASSUME NEW u \in Users, NEW t \in Tables PROVE <<u, t>> # None /\ <<u, t>> \in Ids
  OBVIOUS
<1>1. u # 0
  BY Params
<1>2. <<u, t>>[1] = u /\ <<0, 0>>[1] = 0
  OBVIOUS
<1>3. <<u, t>> # <<0, 0>>
  BY <1>1, <1>2
<1>4. <<u, t>> # None
  BY <1>3 DEF None
<1>5. <<u, t>> \in Ids
  BY DEF Ids
<1> QED BY <1>4, <1>5
LEMMA Known == \A i \in Ids : i # None
<1> SUFFICES ASSUME NEW i \in Ids PROVE i # None
  OBVIOUS
<1>1. PICK u \in Users, t \in Tables : i = <<u, t>>
  BY DEF Ids
<1> QED BY <1>1, Apart

THEOREM Safe == Spec => [](Whole /\ Same /\ NoRace)
<1> DEFINE I == Inv /\ Named
<1>1. Init => I
  BY Params DEF Init, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
<1>2. I /\ [Next]_vars => I'
  <2> SUFFICES ASSUME I, [Next]_vars PROVE I'
    OBVIOUS
  <2> USE Params, Apart
  <2>0. CASE UNCHANGED vars
    BY <2>0 DEF vars, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
  <2>1. ASSUME NEW u \in Users, Start(u) PROVE I'
    BY <2>1 DEF Start, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
  <2>2. ASSUME NEW u \in Users, Lock(u) PROVE I'
    BY <2>2 DEF Lock, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
  <2>3. ASSUME NEW u \in Users, Look(u) PROVE I'
    <3>1. CASE at[want[u]] = None
      <4> DEFINE t == want[u]
      <4>0. t \in Tables /\ pc[u] = "look" /\ <<u, t>> \in Ids /\ <<u, t>> # None /\ lock = u
        BY <2>3 DEF Look, Inv, Types, Wants, Exclusive
      <4>1. /\ pc' = [pc EXCEPT ![u] = "fill"] /\ at' = [at EXCEPT ![t] = <<u, t>>]
            /\ fill' = [fill EXCEPT ![<<u, t>>] = 0] /\ UNCHANGED <<mine, lock, want, saw>>
        BY <2>3, <3>1 DEF Look, Go
      <4>2. Types' BY <4>0, <4>1 DEF Inv, Types
      <4>3. Wants' /\ Exclusive' BY <4>0, <4>1 DEF Inv, Types, Wants, Exclusive
      <4>4. \A v \in Users : pc[v] \in {"look", "fill", "unlock"} => v = u
        BY <4>0 DEF Inv, Exclusive
      <4>5. Own' BY <4>0, <4>1, <4>4 DEF Inv, Types, Own
      <4>6. Named' BY <4>0, <4>1 DEF Inv, Types, Named
      <4>7. \A s \in Tables : s # t => at'[s] = at[s] /\ (at[s] # None => at[s] # <<u, t>>)
        <5>1. <<u, t>>[2] = t
          OBVIOUS
        <5> QED BY <4>0, <4>1, <5>1 DEF Inv, Types, Named
      <4>8. \A s \in Tables : s # t /\ at[s] # None => fill'[at[s]] = fill[at[s]]
        BY <4>1, <4>7 DEF Inv, Types
      <4>9. Full' BY <4>0, <4>1, <4>4, <4>7, <4>8 DEF Inv, Types, Full
      <4>10. Mine' BY <3>1, <4>0, <4>1, <4>4, <4>7, <4>8 DEF Inv, Types, Wants, Mine
      <4>11. Used' BY <3>1, <4>0, <4>1, <4>7, Known DEF Inv, Types, Used
      <4> QED BY <4>2, <4>3, <4>5, <4>6, <4>9, <4>10, <4>11 DEF Inv
    <3>2. CASE at[want[u]] # None
      BY <2>3, <3>2 DEF Look, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
    <3> QED BY <3>1, <3>2
  <2>4. ASSUME NEW u \in Users, Fill(u) PROVE I'
    <3>1. CASE fill[<<u, want[u]>>] < Entries
      BY <2>4, <3>1 DEF Fill, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
    <3>2. CASE ~(fill[<<u, want[u]>>] < Entries)
      <4>1. fill[<<u, want[u]>>] = Entries
        BY <2>4, <3>2 DEF Fill, Inv, Types, Wants
      <4> QED BY <2>4, <3>2, <4>1 DEF Fill, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
    <3> QED BY <3>1, <3>2
  <2>5. ASSUME NEW u \in Users, Unlock(u) PROVE I'
    BY <2>5 DEF Unlock, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
  <2>6. ASSUME NEW u \in Users, Use(u) PROVE I'
    <3>1. fill[mine[u]] = Entries /\ mine[u] = at[want[u]] /\ mine[u] \in Ids /\ want[u] \in Tables
      BY <2>6 DEF Use, Inv, Types, Wants, Mine
    <3>2. Types' BY <2>6, <3>1 DEF Use, Go, Inv, Types
    <3>3. Used' BY <2>6, <3>1 DEF Use, Go, Inv, Used
    <3> QED BY <2>6, <3>1, <3>2, <3>3 DEF Use, Go, Inv, Types, Wants, Exclusive, Own, Full, Mine, Used, Named
  <2> QED BY <2>0, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1>3. I => Whole /\ Same /\ NoRace
  BY DEF Inv, Used, Whole, Same, NoRace, Exclusive
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================

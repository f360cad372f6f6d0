------------------------------ MODULE Isolation ------------------------------
(* The objects a caller holds: buffers with what surrounds them, headers,      *)
(* templates, and everything that was returned. A call leaves all of them as   *)
(* they are, but for the one it is meant to change, and may add new ones.      *)
EXTENDS Naturals, Sequences, FiniteSets

\* A step seen is [target, n, changed]: the number of the object the call is
\* meant to change, or 0, the number of objects after it, and those of the
\* objects before it whose value is not what it was.
\* n: the number of objects before it
StepOk(n, seen) ==
  /\ seen.n >= n
  /\ {seen.changed[j] : j \in 1..Len(seen.changed)} \subseteq {seen.target}
IsoRec(a, r) ==
  /\ Len(r.steps) = Len(a.steps)
  /\ \A i \in 1..Len(r.steps) : StepOk(IF i = 1 THEN r.n ELSE r.steps[i-1].n, r.steps[i])
=============================================================================

---------------------------- MODULE CollectorTrace ----------------------------
(* Are the recorded histories of the Collector behaviours of it?  A history is *)
(* accepted if some order of its calls, each between its start and its return, *)
(* and of the expiries, explains everything seen.                              *)
(*                                                                             *)
(* A record has a: [d, handler, pdus], r: [ev], and events [e, c, t, op, p,    *)
(* err, ids, pipes, u]: "do" a call, "call" its start (with the outcome it will   *)
(* have), "ret" its return, "expire" a call of the handler, "settle" a time    *)
(* when everything due must have happened. t is the time of the event, u that  *)
(* of the return.                                                              *)
EXTENDS Collector, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES k, j, st, pend
vars == <<k, j, st, pend>>

Init == k \in 1..Len(Recs) /\ j = 1 /\ st = Start /\ pend = <<>>

A == Recs[k].a
Ev == Recs[k].r.ev
E == Ev[j]

\* which error it is matters where rejections are looked at
Same(x, y) == IF Recs[k].k \in {"col07", "col09"} THEN (x = "") = (y = "") ELSE x = y
\* the steps of a call e with the outcome it had
Steps(s, e) ==
  CASE e.op = "collect" -> {x.st : x \in {y \in CollectSteps(s, A.pdus[e.p], e.t, A.d) :
                                             y.res.ids = e.ids /\ Same(y.res.err, e.err)}}
    [] e.op = "close" -> {CloseStep(s, e.u)}
    [] e.op = "pipes" -> IF s.closed \/ (/\ {e.pipes[i] : i \in 1..Len(e.pipes)} = Snapshot(s)
                                         /\ Len(e.pipes) = Cardinality(Snapshot(s))) THEN {s} ELSE {}
    [] OTHER -> {}

Go(s) == st' = s /\ k' = k
More == j <= Len(Ev)
Do == More /\ E.e = "do" /\ \E s \in Steps(st, E) : Go(s) /\ j' = j + 1 /\ pend' = pend
Call == /\ More /\ E.e = "call" /\ Go(st) /\ j' = j + 1
        /\ pend' = Append(pend, [e |-> E, done |-> FALSE])
Effect(i) ==
  /\ More /\ ~pend[i].done
  /\ \E s \in Steps(st, pend[i].e) : Go(s) /\ pend' = [pend EXCEPT ![i].done = TRUE] /\ j' = j
Return == /\ More /\ E.e = "ret"
          /\ \E i \in 1..Len(pend) : /\ pend[i].e.c = E.c /\ pend[i].done
                                     /\ pend' = RemoveAt(pend, i)
          /\ Go(st) /\ j' = j + 1
\* with no call under way, an expiry can wait until its handler is next
Expire(m) == /\ More /\ MayExpire(st, m, IF E.e = "do" THEN E.u ELSE E.t)
             /\ pend = <<>> /\ E.e = "expire" => m.slots = E.ids
             /\ Go(ExpireStep(st, m, A.handler)) /\ UNCHANGED <<j, pend>>
Handle == /\ More /\ E.e = "expire" /\ MayHandle(st, E.ids) /\ Go(HandleStep(st, E.ids)) /\ j' = j + 1 /\ pend' = pend
Settle == /\ More /\ E.e = "settle" /\ Settled(st, E.t)
          /\ Go(st) /\ j' = j + 1 /\ pend' = pend
Accept == /\ j = Len(Ev) + 1 /\ Recs[k].x = ""
          /\ PrintT(<<"ACCEPTED", Recs[k].i>>)
          /\ j' = j + 1 /\ UNCHANGED <<k, st, pend>>
Next == \/ Do \/ Call \/ Return \/ Handle \/ Settle \/ Accept
        \/ \E i \in 1..Len(pend) : Effect(i)
        \/ \E m \in st.pool : Expire(m)
Spec == Init /\ [][Next]_vars
=============================================================================

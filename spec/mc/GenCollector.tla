----------------------------- MODULE GenCollector -----------------------------
(* The state graph of a Collector with a timeout of D ticks, for a few         *)
(* messages, settled at every tick. Its transitions are printed; check.py      *)
(* makes histories of them that together take every transition.                *)
EXTENDS Collector, TLC

CONSTANT D
P(x, ty, toa, addr, ref, n, q) ==
  [k |-> x, id |-> 1, ty |-> ty, toa |-> toa, addr |-> <<addr>>, udh |-> <<[id |-> 0, d |-> <<ref, n, q>>]>>]
\* name, type, type of address, address, reference, total, number
Pdus == {P("a1", 0, 145, 49, 1, 2, 1), P("a2", 0, 145, 49, 1, 2, 2),
         P("b1", 0, 145, 49, 1, 3, 1), P("b2", 0, 145, 49, 1, 3, 2), P("b3", 0, 145, 49, 1, 3, 3),
         P("r1", 0, 145, 49, 2, 2, 1), P("r2", 0, 145, 49, 2, 2, 2),      \* other reference
         P("s1", 3, 145, 49, 1, 2, 1), P("t2", 0, 129, 49, 1, 2, 2), P("n1", 0, 145, 50, 1, 2, 1),
         P("z0", 0, 145, 49, 1, 2, 0), P("o3", 0, 145, 49, 1, 2, 3), P("u1", 5, 145, 49, 1, 2, 1),
         P("x1", 0, 145, 49, 1, 1, 1)}
Names == {p.k : p \in Pdus}

VARIABLE st
Init == st = Start
\* due is the time left
Older(m) == IF m.due < 0 THEN m ELSE [m EXCEPT !.due = @ - 1]
Tick(s) == LET old == {Older(m) : m \in s.pool} IN [s EXCEPT !.pool = {m \in old : m.due # 0}]
Shown(s) == ToString(<<s.closed, {<<m.key, m.slots, m.due>> : m \in s.pool}>>)
Edge(a, s) == /\ st' = s
              /\ PrintT(<<"EDGE", Shown(st), a, Shown(s)>>)
Next == \/ ~st.closed /\ Edge("wait", Tick(st))
        \/ \E p \in Pdus : \E c \in CollectSteps(st, p, 0, D) : Edge(p.k, c.st)
        \/ Edge("close", [Start EXCEPT !.closed = TRUE])
Spec == Init /\ [][Next]_st
\* at most M messages at a time
Bound == Cardinality(st.pool) <= 2
=============================================================================

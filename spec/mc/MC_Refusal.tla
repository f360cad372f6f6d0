------------------------------- MODULE MC_Refusal ------------------------------
(* Refusals: TPDUs cut short, extended or with an octet changed, TPDUs that    *)
(* cannot be written, and frames cut short.                                    *)
EXTENDS Tpdus

Vals == {0, 1, 127, 128, 255}
Samples == {t \in Delivers \cup Submits \cup Commands \cup Statuses \cup DReports \cup SReports :
              /\ Len(t.ud) = 2 /\ t.dcs \in {0, 8} \cup Q({}, {4}) /\ t.udh \in {<<>>, IE(2)}
              /\ t.pi \in Q({0, 7}, 0..7) /\ (t.vp.f = 0 \/ t.ud = <<1, 2>>)
              /\ Marshal(t).ok}
Damaged(t) ==
  LET b == Marshal(t).b IN
  {[dir |-> t.dir, b |-> x, via |-> 1] :
     x \in {Take(b, n) : n \in 0..Len(b)} \cup {b \o e : e \in {<<0>>, <<255, 1>>}}
           \cup {[b EXCEPT ![i] = v] : i \in 1..Len(b), v \in Q({0, 10, 255}, Vals \cup {9, 10, 16, 160})}
           \cup {Take([b EXCEPT ![i] = 255], Len(b) - 1) : i \in 1..Len(b)}}
Half(S, i) == LET q == SetToSeq(S) IN {q[k] : k \in {k \in 1..Len(q) : k % 8 = i}}

\* one field that cannot be written, or two
BadAddr == {[toa |-> 145, a |-> Rep(<<49>>, 256)], [toa |-> 208, a |-> <<65, 8712>>], [toa |-> 129, a |-> <<48, 100>>]}
BadTime == {[T1 EXCEPT ![7] = z * 900] : z \in {80, -80}}
Broken ==
  LET a == {A1, A2} \cup BadAddr
      ts == {T1} \cup BadTime
      us == {[d |-> d, h |-> h, u |-> u] : d \in {0, 128, 8, 4}, h \in {<<>>, IE(2), <<[id |-> 36, d |-> Rep(<<7>>, 254)]>>}, u \in {<<>>, <<1, 2>>, <<3>>, Rep(<<1>>, 255)}}
      W(t, u) == [t EXCEPT !.dcs = u.d, !.udh = u.h, !.ud = u.u, !.fo = IF u.h = <<>> THEN @ ELSE @ + 64]
      some == Q({x \in us : x.u # <<3>> \/ x.d = 8}, us)
  IN {[W([ZeroTPDU EXCEPT !.oa = x, !.scts = t], u) EXCEPT !.fo = @ + 0] : x \in a, t \in ts, u \in some}
     \cup {W([ZeroTPDU EXCEPT !.dir = 1, !.fo = 1 + 8 * v.f, !.da = x, !.vp = v], u) :
             x \in a, v \in {NoVP, [NoVP EXCEPT !.f = ENHANCED, !.efi = 4], [NoVP EXCEPT !.f = ABSOLUTE, !.t = CHOOSE t \in BadTime : TRUE]}, u \in some}
     \cup {W([ZeroTPDU EXCEPT !.dir = 1, !.fo = 2, !.da = x], u) : x \in a, u \in us}
     \cup {W([ZeroTPDU EXCEPT !.fo = 2, !.pi = p, !.ra = x, !.scts = t, !.dt = s], u) : p \in {0, 6}, x \in a, t \in ts, s \in ts, u \in {u \in us : u.u = <<3>>}}
     \cup {W([ZeroTPDU EXCEPT !.dir = 1, !.fcs = 1, !.pi = p], u) : p \in {0, 4, 6}, u \in us}
     \cup {W([ZeroTPDU EXCEPT !.fo = 1, !.fcs = 1, !.pi = p, !.scts = t], u) : p \in {0, 4, 6}, t \in ts, u \in us}
Shares == 1..10
Inputs(i) ==
  CASE i <= 8 -> In1("rej", UNION {Damaged(t) : t \in Half(Samples, i - 1)})
    [] i = 9 -> In1("rejm", {[t |-> t] : t \in Broken})
    [] i = 10 -> In1("rejp", {[b |-> b] : b \in Upto({0, 1, 2, 3, 4, 33, 145, 255}, Q(4, 5))})

ReadLaws(dir, b) ==
  \/ FirstOctet(b)
  \/ LET w == Walk(dir, b)
         p == Unmarshal(dir, b)
     IN \/ w.any
        \/ /\ w.stop <=> p.st = "err"
           /\ w.out = {} <=> p.st = "ok"
           /\ p.st \in {"ok", "may"} => w.t = [p.t EXCEPT !.udh = <<>>, !.ud = <<>>, !.dcs = w.t.dcs]
           \* where the field starts, which is within the octets or at their end
           /\ \A x \in w.out : 1 <= x.lo /\ x.lo <= x.hi /\ x.lo <= Len(b) /\ (x.why = Over => x.lo < Len(b))
           \* what is cut short may be refused only for what is not there, and no later field
           /\ (p.st = "ok" /\ Len(b) > 1) =>
                LET c == Walk(dir, Take(b, Len(b) - 1))
                IN ~c.any => \A x \in c.out : x.why = Under
           \* and a fault before the user data is the same whatever follows
           /\ \A e \in {<<0>>, <<255, 1, 1>>} : \A x \in w.out :
                (x.f # "ud" /\ x.why # Under) => x \in Walk(dir, b \o e).out
WriteLaws(t) == /\ Bad(t) = {} <=> Marshal(t).ok
                \* what cannot be written is not what the type does not have
                /\ Bad(WireTPDU(t)) = Bad(t) \/ ~Marshal(t).ok
Guarantee(x) == CASE x.k = "rej" -> ReadLaws(x.a.dir, x.a.b)
                  [] x.k = "rejm" -> WriteLaws(x.a.t)
                  [] x.k = "rejp" -> TRUE

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

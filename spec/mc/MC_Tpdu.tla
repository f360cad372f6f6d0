-------------------------------- MODULE MC_Tpdu --------------------------------
(* The six TPDU types: marshalling, and reading back what was marshalled, cut   *)
(* short, extended or with one octet changed.                                   *)
EXTENDS Tpdus

\* one of each to damage
Vals == {0, 1, 127, 128, 255}
Samples == {t \in Delivers \cup Submits \cup Commands \cup Statuses \cup DReports \cup SReports :
              /\ Len(t.ud) \in {2} /\ t.dcs \in {0, 4, 8} /\ t.udh \in {<<>>, IE(Q(3, 2)), IE(2)}
              /\ t.pi \in Q({0, 7}, 0..7) /\ (t.vp.f = 0 \/ t.ud = <<1, 2>>)
              /\ Marshal(t).ok}
Octs(t) == Marshal(t).b
Damaged(t) ==
  LET b == Octs(t) IN
  {[dir |-> t.dir, b |-> x, via |-> 0] :
     x \in {Take(b, n) : n \in 0..Len(b) - 1} \cup {b \o e : e \in {<<0>>, <<255, 1>>}}
           \cup {[b EXCEPT ![i] = v] : i \in 1..Len(b), v \in Q({0, 255}, Vals)}
           \cup {[b EXCEPT ![i] = SetField(@, k, 1, 1 - Bit(@, k))] : i \in 1..Len(b), k \in Q({0}, {0, 3, 7})}}
Half(S, i) == LET q == SetToSeq(S) IN {q[k] : k \in {k \in 1..Len(q) : k % 8 = i}}
Shares == 1..14
Inputs(i) ==
  CASE i = 1 -> In1("tm", {[t |-> t] : t \in Delivers})
    [] i = 2 -> In1("tm", {[t |-> t] : t \in Submits})
    [] i = 3 -> In1("tm", {[t |-> t] : t \in Commands})
    [] i = 4 -> In1("tm", {[t |-> t] : t \in Statuses})
    [] i = 5 -> In1("tm", {[t |-> t] : t \in DReports})
    [] i = 6 -> In1("tm", {[t |-> t] : t \in SReports})
    [] i > 6 -> In1("tu", UNION {Damaged(t) : t \in Half(Samples, i - 7)})

WholeUD(t) == TypeOf(t.fo, t.dir) \in {DELIVER, SUBMIT, COMMAND} \/ PiUDL(t.pi)
TripLaws(t) ==
  LET m == Marshal(t)
      p == Unmarshal(t.dir, m.b)
  IN /\ m.ok => Ones(m.b) /\ (\A i \in 1..4 : i <= Len(m.b) => m.b[1] = t.fo)
     /\ (m.ok /\ ValidTPDU(t)) =>
          /\ p = [st |-> "ok", t |-> WireTPDU(t)]
          /\ Marshal(p.t) = m
          \* another direction is another type
          /\ Unmarshal(1 - t.dir, m.b).t # p.t
          \* neither more nor less
          /\ \A k \in 0..Len(m.b) - 1 :
               \* a status report may end early, without its optional part
               Unmarshal(t.dir, Take(m.b, k)).st = "err" \/ (TypeOf(t.fo, t.dir) = STATUSREPORT /\ k = Len(MarshalAddress(t.ra).b) + 17)
          /\ WholeUD(t) => Unmarshal(t.dir, m.b \o <<0>>).st = "err"
     \* a reserved alphabet cannot be marshalled with user data
     /\ (t.dcs = 128 /\ WholeUD(t)) => ~m.ok
ReadLaws(dir, b) ==
  LET p == Unmarshal(dir, b)
      m == Marshal(p.t)
      \* a failure cause of zero is left out by the code (a known finding), and
      \* the specification follows it
      zerofcs == TypeOf(p.t.fo, dir) \in {DELIVERREPORT, SUBMITREPORT} /\ p.t.fcs = 0
      \* a header without elements is no header when written
      nohdr == HasUDHI(p.t.fo) /\ p.t.udh = <<>>
  IN p.st = "ok" =>
       /\ p.t.dir = dir /\ p.t.fo = b[1]
       \* what was read can be written, at no greater length, and read again
       /\ (m.ok /\ ~zerofcs /\ ~nohdr) => Len(m.b) <= Len(b) /\ (m.b = b \/ Unmarshal(dir, m.b).t = p.t)
Guarantee(x) == CASE x.k = "tm" -> TripLaws(x.a.t)
                  [] x.k = "tu" -> ReadLaws(x.a.dir, x.a.b)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

------------------------------- MODULE MC_Wire -------------------------------
(* Messages around the capacity of one and of several TPDUs, after headers of    *)
(* every length: what encoding makes of them fits, and is read back the same.   *)
EXTENDS Small

\* a header of n octets with its length, but for those of 1 and 2
Hdr(n) == IF n < 3 THEN <<>> ELSE <<[id |-> 36, d |-> [i \in 1..(n - 3) |-> (i * 7) % 256]]>>
Two(n) == IF n < 9 THEN Hdr(n) ELSE <<[id |-> 112, d |-> <<1, 2>>], [id |-> 36, d |-> [i \in 1..(n - 7) |-> i]]>>
O(name) == [o |-> name, n |-> 0, num |-> <<>>, ies |-> <<>>, nli |-> <<>>]
Types == <<DELIVER, SUBMIT, STATUSREPORT, DELIVERREPORT, SUBMITREPORT, COMMAND>>
Ways == <<[dcs |-> 0, cps |-> <<97, 98, 64>>], [dcs |-> 0, cps |-> <<65, 123, 8364>>],
          [dcs |-> 4, cps |-> <<0, 127, 1>>], [dcs |-> 16, cps |-> <<20013, 128522, 65>>],
          [dcs |-> 0, cps |-> <<286, 65, 351>>], [dcs |-> 241, cps |-> <<97, 8364>>],
          [dcs |-> 8, cps |-> <<0, 65, 78, 45>>]>>
Tmpl(ty, dcs, ies) ==
  LET t == <<2021, 2, 28, 23, 59, 1, -3600>>
      report == ty \in {STATUSREPORT, DELIVERREPORT, SUBMITREPORT}
      If1(c, x, y) == IF c THEN x ELSE y
  IN [ZeroTPDU EXCEPT !.dir = ty % 2, !.fo = 64 + ty \div 2, !.dcs = dcs, !.udh = ies, !.pid = 9,
                      !.scts = If1(ty \in {DELIVER, STATUSREPORT, SUBMITREPORT}, t, <<>>),
                      !.dt = If1(ty = STATUSREPORT, t, <<>>), !.ra = If1(ty = STATUSREPORT, [toa |-> 129, a |-> <<55>>], NoAddr),
                      !.fcs = If1(ty \in {DELIVERREPORT, SUBMITREPORT}, 200, 0),
                      \* the indicator has what the template has
                      !.pi = If1(report, 1 + If1(dcs # 0, 2, 0) + If1(ies # <<>>, 4, 0), 0),
                      !.oa = If1(ty = DELIVER, [toa |-> 145, a |-> <<49, 50, 51>>], NoAddr),
                      !.da = If1(ty \in {SUBMIT, COMMAND}, [toa |-> 145, a |-> <<52, 53>>], NoAddr)]
Template(t) == [o |-> "template", t |-> IF t.udh = <<>> THEN [t EXCEPT !.fo = @ - 64] ELSE t,
                n |-> 0, num |-> <<>>, ies |-> <<>>, nli |-> <<>>]
\* raw alphabets take octets
Raw1(w) == w.dcs \in {4, 8}
\* lengths, in characters, such that one segment is nearly full, full, or too small, and so two
Lens(room, w) ==
  LET per == IF Raw1(w) THEN 1 ELSE IF w.dcs = 16 THEN 2 ELSE 1
      one == IF Raw1(w) THEN room ELSE IF w.dcs = 16 THEN room \div 3 ELSE (room * 8) \div 7
  IN {n \in {1, one - 1, one, one + 1, 2 * one - 12, 2 * one - 5} : n >= 1 /\ n <= Q(320, 400)}
Hs(s) == {n \in 0..140 : n \notin {1, 2} /\ n % 8 = s - 1 /\ (Deep \/ n < 24 \/ n > 120 \/ n % 5 = 0)}
Shares == 1..8
\* the data of a command are octets
Cases == {<<ty, w>> : ty \in 1..2, w \in 1..Len(Ways)} \cup {<<ty, w>> : ty \in 3..5, w \in Q({1, 3, 4, 5}, 1..Len(Ways))} \cup {<<6, 3>>}
Inputs(s) ==
  In1("wf", UNION {{[opts |-> <<Template(Tmpl(Types[c[1]], Ways[c[2]].dcs, IF (n + c[2]) % 2 = 0 THEN Hdr(n) ELSE Two(n))),
                                [O("charset") EXCEPT !.nli = <<1, 2>>]>>,
                     msg |-> IF Raw1(Ways[c[2]])
                             THEN Rep(Ways[c[2]].cps, IF Ways[c[2]].dcs = 8 THEN 2 * ((l + 1) \div 2) ELSE l)
                             ELSE Utf8(Rep(Ways[c[2]].cps, l)),
                     cps |-> Rep(Ways[c[2]].cps, l)]
                    : l \in Lens(UDRoom(Tmpl(Types[c[1]], 0, <<>>)) - n, Ways[c[2]])} : n \in Hs(s), c \in Cases})
Guarantee(x) ==
  LET cfg == Config(ZeroCfg, x.a.opts)
      e == EncodeOf(cfg, x.a.msg, x.a.cps, FALSE, 0, 0)
      n == Len(e.pdus)
  IN /\ e.err = "" => n >= 1
     /\ \A i \in 1..n :
          LET p == e.pdus[i]
              m == Marshal(p)
              u == Unmarshal(p.dir, m.b)
          IN /\ m.ok /\ RoomOk(p) /\ u.st = "ok"
             /\ u.t.udh = p.udh /\ u.t.ud = p.ud /\ u.t.dcs = p.dcs /\ (TypeOf(p.fo, p.dir) \in {SUBMIT, COMMAND, STATUSREPORT} => u.t.mr = p.mr) /\ HasUDHI(u.t.fo) = (p.udh # <<>>)
             /\ Len(m.b) <= UDRoom(p) + 25 + (IF TypeOf(p.fo, p.dir) = STATUSREPORT THEN 8 ELSE 0)
     \* no TPDU would hold more: each but the last has no room for one character more
     /\ n > 1 => \A i \in 1..(n - 1) :
          LET p == e.pdus[i]
              q == e.pdus[i+1]
              more == IF Alphabet(p.dcs) = A8 THEN 1
                      ELSE IF Alphabet(p.dcs) = AUCS2 THEN IF q.ud[1] \in 216..219 THEN 4 ELSE 2
                      ELSE IF q.ud[1] = ESC /\ Len(q.ud) > 1 THEN 2 ELSE 1
          IN ~RoomOk([p EXCEPT !.ud = @ \o Take(q.ud, more)])

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

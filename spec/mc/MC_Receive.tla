------------------------------- MODULE MC_Receive -----------------------------
(* The receiving tools on small sets of TPDUs and lists of them.                 *)
EXTENDS Tpdus

Hex(b) == FlattenSeq([i \in 1..Len(b) |-> HexN(b[i], 2)])
Smsc == <<2, 145, 33>>
\* --- smsdecode
Ts == {t \in UNION {Delivers, Submits, Commands, Statuses, DReports, SReports} :
         Marshal(t).ok /\ (Deep \/ Len(t.ud) \in {0, 2} \/ Len(t.udh) > 1)}
Tsq == SetToSeq(Ts)
Deal(i) == {Tsq[k] : k \in {k \in 1..Len(Tsq) : k % 8 = i}}
Shown1(t) == {[s |-> Hex(Marshal(t).b), p |-> FALSE, o |-> t.dir = 1, extra |-> 0, t |-> t]}
\* --- smsdeliver: segments of two peers, singles, others, and what is none
P(oa, ref, n, q, ud) == [ZeroTPDU EXCEPT !.fo = 64, !.oa = oa, !.scts = T1, !.udh = IF n = 0 THEN IE(1) ELSE <<ConcatIE(FALSE, ref, n, q)>>, !.ud = ud]
Stat == [ZeroTPDU EXCEPT !.fo = 2, !.ra = A1, !.scts = T1, !.dt = T2]
Menu1 == <<Marshal(P(A1, 1, 2, 1, <<65>>)).b, Marshal(P(A1, 1, 2, 2, <<66, 27, 101>>)).b, Marshal(P(A2, 1, 2, 2, <<67>>)).b,
          Marshal(P(A2, 1, 2, 1, <<68>>)).b, Marshal(P(A1, 1, 0, 0, <<69, 0>>)).b, Marshal(Stat).b, <<1, 2, 3>>,
          Marshal([P(A1, 2, 2, 1, <<216, 61>>) EXCEPT !.dcs = 8]).b, Marshal([P(A1, 2, 2, 2, <<222, 10>>) EXCEPT !.dcs = 8]).b,
          Marshal(P(A1, 3, 2, 3, <<70>>)).b>>
\* in hex, and one that is not
Menu == [i \in 1..Len(Menu1) |-> Hex(Menu1[i])] \o <<<<48, 71>>>>
Shares == 1..19
Inputs(i) ==
  CASE i <= 8 -> In1("sdecode", UNION {Shown1(t) : t \in Deal(i - 1)})
    [] i = 9 -> In1("sdecode", {[s |-> Hex(Smsc \o Marshal(t).b), p |-> p, o |-> t.dir = 1, extra |-> 0] : t \in {x \in Ts : x.pid = 0 /\ x.ud = <<>>}, p \in BOOLEAN})
    [] i \in 10..19 -> In1("sdeliver", {[args |-> [k \in 1..Len(s) |-> Menu[s[k]]], p |-> FALSE] :
                         s \in {<<i - 9>> \o x : x \in Upto(1..(IF i > 18 \/ Deep THEN 11 ELSE 10), Q(2, 3))}})

\* another value of any field shows
Fields == {"fo", "mr", "pid", "ct", "mn", "st", "fcs", "dcs"}
DecodeLaws(t) ==
  LET s == Shown(t, FALSE)
      Differs(u) == (Marshal(u).ok /\ Marshal(u).b # Marshal(t).b) => Shown(u, FALSE) # s
  IN /\ \A f \in Fields \ {"fo"} : Differs([t EXCEPT ![f] = (@ + 1) % 256])
     /\ Differs([t EXCEPT !.oa = [toa |-> 145, a |-> <<50>>]]) /\ Differs([t EXCEPT !.da = [toa |-> 145, a |-> <<50>>]])
     /\ Differs([t EXCEPT !.ra = [toa |-> 145, a |-> <<50>>]])
     /\ t.scts # <<>> => \A k \in 1..6 : Differs([t EXCEPT !.scts[k] = @ + 1])
     /\ t.dt # <<>> => \A k \in 1..6 : Differs([t EXCEPT !.dt[k] = @ + 1])
     /\ \A i \in 1..Len(t.ud) : Differs([t EXCEPT !.ud[i] = (@ + 1) % 128])
     /\ \A i \in 1..Len(t.udh) : Differs([t EXCEPT !.udh[i].id = (@ + 1) % 256])
     /\ Differs([t EXCEPT !.ud = Append(@, 65)])
DeliverLaws(a) ==
  LET r == DeliverOut(a)
      b == DeliverOut([a EXCEPT !.args = Take(@, Len(@) - 1)])
  IN r.ok => /\ Len(a.args) > 1 => b.ok /\ Take(r.out, Len(b.out)) = b.out
                /\ (r.out # b.out => Cardinality(r.st.pool) <= Cardinality(b.st.pool))
             /\ Cardinality(r.st.pool) <= Len(a.args)
Guarantee(x) == CASE x.k = "sdecode" -> x.a.p \/ "t" \notin DOMAIN x.a \/ DecodeLaws(x.a.t)
                  [] x.k = "sdeliver" -> DeliverLaws(x.a)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

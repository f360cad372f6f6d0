------------------------------- MODULE MC_Reuse -------------------------------
(* Reads into one variable, in every order: TPDUs of all types, with and       *)
(* without the fields that may be absent, cut short ones among them; and       *)
(* validity periods, addresses, headers, time stamps and frames.               *)
EXTENDS Tpdus, Reuse

\* of each kind a few that differ in what they have
OfType(S) == LET q == SetToSeq({t \in S : t.dcs \in {0, 4} /\ Len(t.ud) \in {0, 2} /\ Marshal(t).ok})
                 w == Q(5, 9)
             IN {q[1 + ((k * Len(q)) \div (w + 1))] : k \in 0..w}
Octs(t) == [dir |-> t.dir, b |-> Marshal(t).b, via |-> 1]
Tu == LET good == {Octs(t) : t \in UNION {OfType(S) : S \in {Delivers, Submits, Commands, Statuses, DReports, SReports}}
                                  \cup {[ZeroTPDU EXCEPT !.dir = 1, !.fo = SetField(1, 3, 2, v.f), !.da = A1, !.vp = v] : v \in VPs}}
      IN good \cup {[x EXCEPT !.b = Take(@, Len(@) - 1)] : x \in {x \in good : Len(x.b) % 3 = 0}}
Vpu == UNION {{[b |-> b, f |-> f] : b \in {<<>>, <<1, 1, 0, 0, 0, 0, 0>>, <<66, 7, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0>>,
                                              <<3, 18, 52, 86, 0, 0, 0>>, <<145, 33, 67, 101, 16, 17, 10>>}} : f \in 0..4}
Addru == {[b |-> b] : b \in {<<0, 145>>, <<0, 208>>, <<3, 145, 33, 243>>, <<4, 129, 33, 67>>, <<2, 208, 65>>, <<7, 208, 65, 33, 0, 1>>, <<3, 145, 33>>, <<>>}}
Udhu == {[b |-> b] : b \in {<<0>>, <<2, 1, 0>>, <<5, 0, 3, 1, 2, 1>>, <<6, 8, 4, 1, 1, 2, 2>>, <<7, 36, 1, 3, 37, 2, 1, 2>>, <<3, 0, 3, 1>>, <<>>}}
Tsu == {[b |-> b] : b \in {<<145, 33, 67, 101, 16, 17, 10>>, <<2, 16, 16, 0, 0, 0, 0>>, <<2, 16, 16, 0, 0, 0, 138>>, <<1, 2>>, <<>>}}
Pduu == {[b |-> b] : b \in {<<0>>, <<0, 7>>, <<1, 145>>, <<1, 145, 5>>, <<2, 145, 33>>, <<3, 129, 33, 243, 9>>, <<2, 208, 240, 1, 2>>, <<3, 145, 33>>, <<>>}}
Pduh == {[s |-> s] : s \in {<<48, 48>>, <<48, 48, 49, 50>>, <<48, 50, 57, 49, 50, 49>>, <<48, 50, 57, 49, 70, 49, 48, 48>>, <<48, 50, 57, 49>>, <<48>>, <<103, 48>>, <<>>}}
Calls(k, S) == {[k |-> k, a |-> x] : x \in S}
Upto1(S, n) == UNION {[1..i -> S] : i \in 1..n}
Shares == 1..12
Tq == SetToSeq(Tu)
Seqs(k, S, n) == In1("reuse", {[calls |-> s] : s \in Upto1(Calls(k, S), n)})
Inputs(i) ==
  CASE i <= 6 -> In1("reuse", {[calls |-> <<[k |-> "tu", a |-> Tq[j]]>> \o s] :
                      j \in {j \in 1..Len(Tq) : j % 6 = i - 1}, s \in Upto1(Calls("tu", Tu), 1)})
    [] i = 7 -> Seqs("vpu", Vpu, 2)
    [] i = 8 -> Seqs("addru", Addru, Q(3, 4))
    [] i = 9 -> Seqs("udhu", Udhu, Q(3, 4))
    [] i = 10 -> Seqs("tsu", Tsu, Q(3, 4))
    [] i = 11 -> Seqs("pduu", Pduu, Q(3, 4))
    [] i = 12 -> Seqs("pduh", Pduh, Q(3, 4))

\* read in place, cleared first, one after another: at each what a new one would hold
RECURSIVE Fold(_, _)
Fold(v, cs) == IF cs = <<>> THEN TRUE
               ELSE LET c == cs[1].a
                        p == Unmarshal(c.dir, c.b)
                        w == ReadInto([v EXCEPT !.dir = c.dir], p.t)
                    IN IF p.st # "ok" THEN Fold([v EXCEPT !.mr = 99, !.pid = 98], Tail(cs))
                       ELSE w = p.t /\ Fold(w, Tail(cs))
Guarantee(x) == LET cs == x.a.calls IN cs[1].k = "tu" => Fold(ZeroTPDU, cs)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

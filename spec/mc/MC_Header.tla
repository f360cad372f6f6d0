------------------------------- MODULE MC_Header -------------------------------
(* User data headers: marshalling and parsing, and what a header says.          *)
EXTENDS Small

Datas == {<<>>, <<1>>, <<7, 2, 1>>, <<9, 3, 3>>, <<1, 2, 2, 1>>, <<255, 0, 255, 254>>}
Els == {[id |-> i, d |-> d] : i \in {0, 8, 24, 37}, d \in Datas}
\* near the most a header can hold
Long(n) == [id |-> 37, d |-> [i \in 1..n |-> i % 256]]
Full1 == {<<Long(n)>> : n \in 250..255} \cup {<<Long(n), [id |-> 24, d |-> <<1>>]>> : n \in 247..253}
Shares == 1..4
Inputs(i) ==
  CASE i = 1 -> In1("udhm", {[ies |-> s] : s \in Upto(Els, Q(2, 3)) \cup Full1})
    [] i = 2 -> In1("ies", {[ies |-> s, id |-> n] : s \in Upto(Els, 2), n \in Q({0, 24}, {0, 8, 24, 25, 37})})
    [] i = 3 -> In1("udhu", {[b |-> b] : b \in Upto({0, 1, 2, 3, 5}, Q(5, 6))})
    [] i = 4 -> In1("udhu", {[b |-> <<n>> \o b] : n \in 4..7, b \in {Rep(p, k) : p \in {<<0, 3, 1>>, <<8, 4, 2>>, <<24, 1>>, <<1, 0>>}, k \in 0..9}})

MarshalLaws(ies) ==
  LET m == MarshalHeader(ies) IN
  /\ m.ok = (HeaderLen(ies) <= 255)
  /\ m.ok => Len(m.b) = HeaderSize(ies) /\ Ones(m.b)
  /\ (m.ok /\ ies # <<>>) =>
       \* whatever follows a header is not taken for a part of it, and a header cut short is refused
       /\ ParseHeader(m.b \o <<0, 3, 5>>) = [ok |-> TRUE, n |-> Len(m.b), ies |-> ies]
       /\ \A k \in Q({0, 1, Len(m.b) - 1}, 0..Len(m.b) - 1) : ~ParseHeader(Take(m.b, k)).ok
ParseLaws(b) ==
  LET p == ParseHeader(b) IN
  p.ok => /\ p.n = 1 + b[1] /\ p.n <= Len(b)
          /\ IF p.ies = <<>> THEN b[1] = 0 ELSE MarshalHeader(p.ies) = Good(Take(b, p.n))
InfoLaws(ies) ==
  LET c == ConcatInfo(ies) IN
  \* an element of concatenation added last is the one that counts, unless there is
  \* one with the other width of reference that takes precedence
  /\ \A w \in BOOLEAN : LET e == Append(ies, ConcatIE(w, 4660, 3, 2)) IN
        LET x == IF w THEN Concat16(e) ELSE Concat8(e)
        IN x = [ok |-> TRUE, total |-> 3, seqno |-> 2, ref |-> IF w THEN 4660 ELSE 52]
  /\ ~HasIE(ies, 0) /\ ~HasIE(ies, 8) => ~c.ok
  /\ c.ok => \E i \in 1..Len(ies) : ies[i].id \in {0, 8} /\ ies[i].d # <<>> /\ c.seqno = ies[i].d[Len(ies[i].d)]
  \* a later element of the same kind replaces an earlier one
  /\ \A i \in {0, 8, 24, 37} : HasIE(ies, i) =>
        /\ WithId(ies, i)[Len(WithId(ies, i))] = LastIE(ies, i)
        /\ \E k \in 1..Len(ies) : ies[k] = LastIE(ies, i) /\ \A j \in k+1..Len(ies) : ies[j].id # i
  /\ NationalNLI(ies, 24) = -1 \/ HasIE(ies, 24)
Guarantee(x) == CASE x.k = "udhm" -> MarshalLaws(x.a.ies)
                  [] x.k = "udhu" -> ParseLaws(x.a.b)
                  [] x.k = "ies" -> InfoLaws(x.a.ies)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

-------------------------------- MODULE MC_Send --------------------------------
(* The sending tools on texts around the capacities, and all forms of numbers.   *)
EXTENDS Small

Texts1 == {Rep(p, n) : p \in {<<65>>, <<8364>>, <<97, 286>>, <<20013>>, <<65, 128522>>}, n \in {1, 2, 69, 70, 71, 134, 159, 160, 161, 306} \cup Q({}, 66..72 \cup 150..165 \cup 300..310)}
         \cup {<<>>}
Nums == {<<49>>, <<43, 49, 50>>, <<49, 65>>, <<42, 35, 97>>, Rep(<<55>>, 20), Rep(<<55>>, 21), Rep(<<56>>, 255), Rep(<<56>>, 256)}
Shares == 1..2
Inputs(i) ==
  CASE i = 1 -> In1("ssubmit", {[num |-> n, msg |-> Utf8(c), cps |-> c, nli |-> 0] : n \in Nums, c \in {Rep(<<65>>, 3), <<>>, Rep(<<20013>>, 71)}}
                                \cup {[num |-> <<49>>, msg |-> Utf8(c), cps |-> c, nli |-> l] : c \in Texts1, l \in {0, 1, 13}})
    [] i = 2 -> In1("scount", {[msg |-> Utf8(c), cps |-> c, nli |-> l] : c \in Texts1, l \in {0, 1, 13}})

CountLaws(a) ==
  LET c == CountOf(a)
      e == EncodeOf(ToolCfg(<<>>, a.nli), a.msg, a.cps, FALSE, 0, 0)
  IN c.ok => /\ c.n = Len(e.pdus) /\ c.last \in 1..c.per
             /\ (c.enc = "UCS-2") = (Alphabet(e.pdus[1].dcs) = AUCS2)
             /\ c.per <= IF c.enc = "UCS-2" THEN 70 ELSE 160
Guarantee(x) == x.k = "scount" => CountLaws(x.a)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

----------------------------- MODULE MC_Charsets -----------------------------
(* The GSM 7 bit tables and the conversion between text and septets.            *)
EXTENDS Small

\* characters: in all tables, in the default extension only, of one language's
\* shift or locking table, with septets in both, of none
Cs == {64, 32, 8364, 12, 231, 286, 350, 2309, 1705, 20013, 128522}
Gs == {27, 0, 32, 10, 101, 28, 71, 127, 128}
Langs == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<3, 0>>, <<0, 3>>, <<4, 4>>, <<6, 6>>, <<13, 13>>, <<14, 0>>}
LangOf(i) == SetToSeq(Langs)[((i - 1) % Cardinality(Langs)) + 1]
Shares == 1..22
Inputs(i) ==
  IF i > 20 THEN In1("ctab", {[n |-> n, shift |-> i = 22, via |-> 0] : n \in -1..16})
  ELSE LET l == LangOf(i)[1]
           s == LangOf(i)[2]
       IN IF i <= 10 THEN In1("genc", {[cps |-> c, l |-> l, s |-> s, via |-> 0] : c \in Upto(Cs, Q(2, 3))})
          ELSE In1("gdec", {[g |-> g, l |-> l, s |-> s, strict |-> b, via |-> 0] : g \in Upto(Gs, Q(3, 4)), b \in BOOLEAN})

\* --- the tables -------------------------------------------------------------------
TabLaws(n, shift) ==
  LET tab == IF shift THEN Shift(n) ELSE Locking(n)
      inv == IF shift THEN RS(n) ELSE RL(n)
  IN /\ Len(tab) = 128 /\ tab[ESC + 1] = -1
     /\ \A g \in 0..127 : tab[g + 1] # -1 => g \in SeptetsOf(inv, tab[g + 1])
     /\ \A c \in Chars(tab) : \A g \in SeptetsOf(inv, c) : tab[g + 1] = c
     /\ \A c \in Cs \ Chars(tab) : SeptetsOf(inv, c) = {}
     \* line feed and carriage return mean the same in every locking table, and
     \* form feed in every shift table
     /\ IF shift THEN tab[11] = 12 /\ tab[14] \in {10, 13} ELSE tab[11] = 10 /\ tab[14] = 13
     /\ n \notin NLIs => tab = IF shift THEN Shift(0) ELSE Locking(0)

\* --- the conversion -------------------------------------------------------------------
EncLaws(cps, l, s) ==
  Encodable(cps, l, s) =>
    LET g == GsmEncode(cps, l, s)
        n == Len(g)
    IN /\ IsEncoding(g, cps, l, s)
       /\ n \in Len(cps)..2 * Len(cps)
       \* strictly or leniently, decoding gives it back
       /\ GsmDecode(g, l, s, TRUE) = Good(cps) /\ GsmDecode(g, l, s, FALSE) = Good(cps)
       \* nothing shorter, longer or otherwise escaped is an encoding of it
       /\ n > 0 => ~IsEncoding(Take(g, n - 1), cps, l, s) /\ ~IsEncoding(g \o <<32>>, cps, l, s)
       /\ \A i \in 1..n : (g[i] = ESC) =>
             ~IsEncoding([g EXCEPT ![i] = 32], cps, l, s)
DecLaws(g, l, s) ==
  LET d == GsmDecode(g, l, s, FALSE)
      e == GsmDecode(g, l, s, TRUE)
      n == Len(g)
      \* is the last septet one that escapes the next?
      open(u) == LET k == Len(u) IN k > 0 /\ u[k] = ESC /\ (k > 1 => u[k-1] # ESC \/ (k > 2 /\ u[k-2] = ESC))
  IN /\ d.ok /\ Len(d.b) <= n
     \* strict decoding says the same, or refuses
     /\ e.ok => e.b = d.b
     /\ (\A i \in 1..n : g[i] \in {0, 32, 10, 13}) => e.ok
     /\ (\E i \in 1..n : g[i] > 127) => ~e.ok
     \* what is decoded in pieces is as decoded whole, unless cut in an escape
     /\ \A k \in 0..n : ~open(Take(g, k)) =>
          d.b = GsmDecode(Take(g, k), l, s, FALSE).b \o GsmDecode(Rest(g, k), l, s, FALSE).b
     \* and where it can be encoded again it decodes to the same
     /\ (e.ok /\ Encodable(e.b, l, s)) => GsmDecode(GsmEncode(e.b, l, s), l, s, TRUE) = e
Guarantee(x) == CASE x.k = "ctab" -> TabLaws(x.a.n, x.a.shift)
                  [] x.k = "genc" -> EncLaws(x.a.cps, x.a.l, x.a.s)
                  [] x.k = "gdec" -> DecLaws(x.a.g, x.a.l, x.a.s)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

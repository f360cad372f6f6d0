------------------------------ MODULE MC_Errors ------------------------------
(* What is said of a refused value: something exactly if the call is refused,   *)
(* and of a value that is refused on its own too.                               *)
EXTENDS Small

E0 == [o |-> "", n |-> 0, l |-> 0, s |-> 0, cps |-> <<>>, b |-> <<>>, via |-> 0]
\* of the default tables, of others, of none; digits and not
Cs == {65, 8364, 287, 1092, 128512, 49, 99}
Gs == {0, 27, 65, 101, 128, 255}
Us == {<<0, 65>>, <<216, 0>>, <<220, 1>>, <<219>>}
Os == {0, 9, 10, 16, 153, 154, 160, 250}
Shares == 1..9
Inputs(i) ==
  CASE i = 1 -> In1("err", {[E0 EXCEPT !.o = "genc", !.l = l, !.s = s, !.cps = c] : l \in {0, 1}, s \in {-1, 0, 1}, c \in Upto(Cs, Q(2, 4))})
    [] i = 2 -> In1("err", {[E0 EXCEPT !.o = "gdec", !.l = l, !.s = s, !.b = b, !.via = 1] : l \in {0, 4}, s \in {-1, 0, 1}, b \in Upto(Gs, Q(3, 4))})
    [] i = 3 -> In1("err", {[E0 EXCEPT !.o = "semie", !.cps = c] : c \in Upto(Cs, Q(3, 4))})
    [] i = 4 -> In1("err", {[E0 EXCEPT !.o = o, !.n = n] : o \in {"bcd", "bcds"}, n \in -300..300}
                           \cup {[E0 EXCEPT !.o = o, !.n = n] : o \in {"bcdd", "bcdds"}, n \in 0..255})
    [] i = 5 -> In1("err", {[E0 EXCEPT !.o = o, !.b = FlattenSeq(b)] : o \in {"udec", "dud"}, b \in Upto(Us, Q(4, 5))})
    [] i = 6 -> In1("err", {[E0 EXCEPT !.o = "tsu", !.b = Take(<<x, 1, 1, x, y, y, z>>, n)] : x \in Os, y \in Os, z \in Os, n \in {6, 7}})
    [] i = 7 -> In1("err", {[E0 EXCEPT !.o = "addru", !.b = <<l, t>> \o b] : l \in 0..4, t \in {145, 208}, b \in Upto(Os \cup {55}, 2)})
    [] i = 8 -> In1("err", {[E0 EXCEPT !.o = "addrm", !.n = t, !.cps = c] : t \in {145, 208}, c \in Upto(Cs, Q(2, 3))})
    [] i = 9 -> In1("err", {[E0 EXCEPT !.o = o, !.n = d, !.s = f] : o \in {"typem", "typeu", "col"}, d \in 0..1, f \in 0..255})

\* the calls that are not refused
Fine(a) ==
  CASE a.o = "genc" -> Encodable(a.cps, a.l, a.s)
    [] a.o = "gdec" -> GsmDecode(a.b, a.l, a.s, TRUE).ok
    [] a.o = "semie" -> SemiEncode(Utf8(a.cps)).ok
    [] a.o = "bcd" -> BcdEncode(a.n).ok
    [] a.o = "bcds" -> BcdEncodeSigned(a.n).ok
    [] a.o = "bcdd" -> BcdDecode(a.n).ok
    [] a.o = "bcdds" -> BcdDecodeSigned(a.n).ok
    [] a.o \in {"udec", "dud"} -> Ucs2Decode(a.b).st = "ok"
    [] a.o = "tsu" -> ParseTime(a.b).st # "err"
    [] a.o = "addru" -> ParseAddress(a.b).st = "ok"
    [] a.o = "addrm" -> MarshalAddress([toa |-> a.n, a |-> a.cps]).ok
    [] a.o \in {"typem", "typeu"} -> a.s % 4 # 3
    [] a.o = "col" -> TypeOf(a.s, a.n) \in {DELIVER, SUBMIT}
\* a value that is complained of is refused where there is nothing else
Alone(a, v) ==
  CASE a.o = "genc" -> ~Encodable(v, a.l, a.s)
    [] a.o = "gdec" -> \E src \in {v, <<ESC>> \o v} : ~GsmDecode(src, a.l, a.s, TRUE).ok
    [] a.o = "semie" -> ~SemiEncode(v).ok
    [] a.o \in {"udec", "dud"} -> v = <<>> \/ Ucs2Decode(v) = [st |-> "dangling", b |-> <<>>, d |-> v]
    [] OTHER -> TRUE
Guarantee(x) == /\ Said(x.a) # {}
                /\ ([k |-> "none", v |-> <<>>] \in Said(x.a)) <=> Fine(x.a)
                /\ \A e \in Said(x.a) : e.k # "none" => Alone(x.a, e.v)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

------------------------------- MODULE MC_Edits -------------------------------
(* A TPDU under edits: every short sequence of them, and what it leaves.        *)
EXTENDS Small

NoE == [e |-> "", n |-> 0, abs |-> FALSE, b |-> <<>>, ies |-> <<>>, vp |-> NoVP, ad |-> NoAddr, via |-> 0]
Ed(name) == [NoE EXCEPT !.e = name]
N(name, ns) == {[Ed(name) EXCEPT !.n = n] : n \in ns}
IEs1 == <<[id |-> 0, d |-> <<7, 2, 1>>]>>
IEs2 == <<[id |-> 24, d |-> <<3>>], [id |-> 8, d |-> <<1, 2, 3, 3>>]>>
Menu == N("type", {0, 3, 4, 6}) \cup N("mti", {0, 3}) \cup N("vpf", {0, 3}) \cup N("dcs", {0, 8, 128}) \cup N("pid", {0, 65})
   \cup {[Ed("vp") EXCEPT !.vp = v] : v \in {NoVP, [NoVP EXCEPT !.f = RELATIVE, !.s = 300]}}
   \cup {[Ed("ud") EXCEPT !.b = <<1, 2>>], [Ed("ud") EXCEPT !.abs = TRUE]}
   \cup {[Ed("udh") EXCEPT !.ies = IEs1], [Ed("udh") EXCEPT !.ies = IEs2], [Ed("udh") EXCEPT !.abs = TRUE]}
   \cup {[Ed("oa") EXCEPT !.ad = [toa |-> 145, a |-> <<49>>]], [Ed("da") EXCEPT !.ad = [toa |-> 129, a |-> <<50>>]]}
\* those that are options of construction too
IsOption(e) == e.e \in {"type", "mti", "dcs", "udh", "oa", "da"}
Full0 == [ZeroTPDU EXCEPT !.dir = 1, !.fo = 249, !.pi = 255, !.dcs = 8, !.pid = 1, !.ud = <<0, 65>>, !.udh = IEs1,
                          !.vp = [NoVP EXCEPT !.f = ENHANCED, !.efi = 2, !.s = 7]]
Starts == {ZeroTPDU, [ZeroTPDU EXCEPT !.dir = 1, !.fo = 1], Full0, [ZeroTPDU EXCEPT !.fo = 255, !.pi = 2]}
Shares == 1..8
Deal(S) == LET q == SetToSeq(S) IN [i \in 1..8 |-> {q[k] : k \in {k \in 1..Len(q) : k % 8 = i - 1}}]
First8 == Deal(Menu)
Seqs(i) == {<<a>> \o s : a \in First8[i], s \in UNION {[1..n -> Menu] : n \in 0..Q(1, 2)}}
OptionSeqs(i) == {s \in Seqs(i) : \A k \in 1..Len(s) : IsOption(s[k])}
Via1(s) == [k \in 1..Len(s) |-> IF IsOption(s[k]) THEN [s[k] EXCEPT !.via = 1] ELSE s[k]]
Inputs(i) == In1("edit", {[t |-> t, edits |-> s] : t \in Starts, s \in Seqs(i) \cup {Via1(s) : s \in Seqs(i)}})
             \cup In1("build", {[base |-> b, edits |-> s] : b \in {-1, 0, 3}, s \in OptionSeqs(i)})

\* the fields an edit is about
Foot(e) == CASE e.e = "type" -> {"dir", "mti"} [] e.e = "mti" -> {"mti"} [] e.e \in {"dir"} -> {"dir"}
             [] e.e = "vpf" -> {"vpf"} [] e.e = "vp" -> {"vp", "vpf"}
             [] e.e = "dcs" -> {"dcs", "pidcs"} [] e.e = "pid" -> {"pid", "pipid"}
             [] e.e = "ud" -> {"ud", "piudl"}
             \* setting a header says that there is user data, removing it does not deny it
             [] e.e = "udh" -> {"udh", "udhi"} \cup (IF e.abs THEN {} ELSE {"piudl"})
             [] e.e = "oa" -> {"oa"} [] e.e = "da" -> {"da"}
View(t) == [dir |-> t.dir, mti |-> t.fo % 4, vpf |-> VPF(t.fo), vp |-> t.vp, dcs |-> t.dcs, pidcs |-> PiDCS(t.pi),
            pid |-> t.pid, pipid |-> PiPID(t.pi), ud |-> t.ud, piudl |-> PiUDL(t.pi), udh |-> t.udh, udhi |-> HasUDHI(t.fo),
            oa |-> t.oa, da |-> t.da,
            rest |-> <<t.fo \div 128, Bit(t.fo, 5), Bit(t.fo, 2), t.pi \div 8, t.fcs, t.mr, t.ct, t.mn, t.ra, t.scts, t.dt, t.st>>]
Effect(t, e) ==
  LET u == Edit(t, e)
      v == View(u)
      w == View(t)
  IN /\ \A f \in DOMAIN v : (f \notin Foot(e) \/ Refused(e)) => v[f] = w[f]
     /\ Edit(u, e) = u
     /\ CASE e.e = "type" /\ ~Refused(e) -> Accessors(u).type = e.n
          [] e.e = "vp" -> v.vp = e.vp /\ v.vpf = e.vp.f
          [] e.e = "ud" -> v.ud = e.b /\ v.piudl = ~e.abs
          [] e.e = "udh" -> v.udh = e.ies /\ v.udhi = ~e.abs /\ (e.abs \/ v.piudl)
          [] e.e = "dcs" -> v.dcs = e.n /\ v.pidcs
          [] e.e = "pid" -> v.pid = e.n /\ v.pipid
          [] OTHER -> TRUE
Guarantee(x) ==
  LET t0 == IF x.k = "edit" THEN x.a.t ELSE NewTPDU
      es == x.a.edits
      before == FoldLeft(Edit, t0, Take(es, Len(es) - 1))
      e == es[Len(es)]
  IN /\ Effect(before, e)
     \* edits of different fields can be made in either order
     /\ Len(es) >= 2 =>
          LET d == es[Len(es) - 1]
              t == FoldLeft(Edit, t0, Take(es, Len(es) - 2))
          IN Foot(d) \cap Foot(e) = {} => Edit(Edit(t, d), e) = Edit(Edit(t, e), d)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

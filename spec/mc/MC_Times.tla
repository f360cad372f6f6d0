------------------------------- MODULE MC_Times -------------------------------
(* BCD, time stamps and validity periods.                                       *)
EXTENDS Small

VPs(f, ss, efis, ts) == {[f |-> f, s |-> s, ns |-> 0, efi |-> e, t |-> t] : s \in ss, e \in efis, t \in ts}
\* around every period that has a code
Around == {s \in UNION {{RelPeriods[c] - 1, RelPeriods[c], RelPeriods[c] + 1} : c \in 0..255} : s >= 0}
          \cup {0, 1, 299, WEEK * 64, 2147483}
Dates == {<<1970, 1, 1>>, <<1999, 12, 31>>, <<2000, 2, 29>>, <<2001, 2, 28>>, <<2069, 12, 31>>, <<2010, 10, 9>>, <<2038, 4, 30>>}
Clocks == {<<0, 0, 0>>, <<23, 59, 59>>, <<9, 10, 11>>, <<20, 40, 50>>}
Zones == {0, 900, -900, 79 * 900, -79 * 900, 8100, -9 * 900, 36000, -10 * 900, 40 * 900}
Times0 == {d \o c \o <<z>> : d \in Dates, c \in Clocks, z \in Zones}
BadZones == {80 * 900, -80 * 900, 100 * 900, -100 * 900}
Octs7 == {<<a, b, c, 18, 52, 86, z>> : a \in {0, 7, 151, 160, 250}, b \in {16, 32, 33, 0, 161}, c \in {19, 3, 147, 0, 26},
                                       z \in {0, 8, 7, 15, 151, 159, 160, 128}}
Shares == 1..10
Inputs(i) ==
  CASE i = 1 -> In1("bcd", {[v |-> v, s |-> s] : v \in -110..110, s \in BOOLEAN})
    [] i = 2 -> In1("bcdd", {[b |-> v, s |-> s] : v \in 0..255, s \in BOOLEAN})
    [] i = 3 -> In1("tsm", {[t |-> t] : t \in Times0 \cup {<<2020, 5, 6, 7, 8, 9, z>> : z \in BadZones}})
    [] i = 4 -> In1("tsu", {[b |-> b] : b \in Octs7 \cup {Rep(<<17>>, n) : n \in 0..6} \cup {Rep(<<17>>, 9)}})
    [] i = 5 -> In1("vpm", {[vp |-> v] : v \in VPs(RELATIVE, Around, {0}, {<<>>})})
    [] i = 6 -> In1("vpm", {[vp |-> v] : v \in VPs(ABSOLUTE, {0}, {0}, {t \in Times0 : t[7] \in {0, -900}})})
    [] i = 7 -> In1("vpm", {[vp |-> v] : v \in VPs(ENHANCED, {0, 1, 59, 60, 255, 256, 3599, 3600, 86400, 359999}, 0..15, {<<>>})
                                          \cup VPs(NOTPRESENT, {0}, {0}, {<<>>}) \cup VPs(4, {0}, {0}, {<<>>})})
    [] i = 8 -> In1("vpu", {[b |-> <<c>>, f |-> RELATIVE] : c \in 0..255})
    [] i = 9 -> In1("vpu", {[b |-> b, f |-> f] : b \in {Take(<<e, x, y, z, 0, w, 0>>, n) :
                                e \in {0, 1, 2, 3, 4, 7, 8, 67, 195}, x \in {0, 1, 153, 160}, y \in {0, 149, 6}, z \in {0, 37}, w \in {0, 1}, n \in {6, 7}},
                                f \in {ENHANCED}})
    [] i = 10 -> In1("vpu", {[b |-> b, f |-> f] : b \in {o \in Octs7 : o[3] = 19} \cup Upto({0, 255}, 2), f \in {NOTPRESENT, ABSOLUTE, 4}})

BcdLaws(v, s) ==
  LET e == IF s THEN BcdEncodeSigned(v) ELSE BcdEncode(v)
  IN /\ e.ok = (v \in IF s THEN -79..79 ELSE 0..99)
     /\ e.ok => LET d == IF s THEN BcdDecodeSigned(e.b[1]) ELSE BcdDecode(e.b[1]) IN d.ok /\ d.v = v
BcdParseLaws(b, s) ==
  LET d == IF s THEN BcdDecodeSigned(b) ELSE BcdDecode(b)
  IN d.ok => (IF s THEN BcdEncodeSigned(d.v) ELSE BcdEncode(d.v)) = Good(<<b>>) \/ (s /\ b = 8)
\* negated, only bit 3 of its offset changes
TimeLaws(t) ==
  LET m == MarshalTime(t)
      p == ParseTime(m.b)
      n == MarshalTime([t EXCEPT ![7] = -@])
  IN /\ InRange(t) => m.ok /\ Len(m.b) = 7 /\ p = [st |-> "ok", t |-> t]
     /\ (InRange(t) /\ t[7] # 0) => n.ok /\ Take(n.b, 6) = Take(m.b, 6) /\ Bit(n.b[7], 3) # Bit(m.b[7], 3)
     /\ Abs(t[7]) >= 80 * 900 => ~m.ok
TimeParseLaws(b) ==
  LET p == ParseTime(b)
  IN p.st = "ok" => InRange(p.t) /\ (MarshalTime(p.t) = Good(Take(b, 7)) \/ b[7] = 8)
VPLaws(vp) ==
  LET m == MarshalVP(vp)
      p == ParseVP(m.b, vp.f)
      r == RelCode(vp.s)
  IN /\ m.ok => /\ p.st = "ok" /\ p.n = Len(m.b) /\ VPMatches(WireVP(vp), p.vp)
                \* once more, it is the same
                /\ MarshalVP(p.vp) = m /\ WireVP(p.vp) = p.vp
                /\ ParseVP(m.b \o <<1>>, vp.f) = p
                /\ m.b # <<>> => ParseVP(Take(m.b, Len(m.b) - 1), vp.f).st = "err"
     \* the period is that asked for, or the longest that is shorter, if there is one
     /\ vp.f = RELATIVE => /\ m.ok /\ RelPeriods[r] <= Max2(vp.s, 300)
                           /\ r = 255 \/ RelPeriods[r + 1] > vp.s
VPParseLaws(b, f) ==
  LET p == ParseVP(b, f) IN
  p.st = "ok" => /\ p.n <= Len(b) /\ p.vp.f = f
                 /\ LET w == WireVP(p.vp) IN w = p.vp \/ p.vp.s >= 360000
Guarantee(x) == CASE x.k = "bcd" -> BcdLaws(x.a.v, x.a.s)
                  [] x.k = "bcdd" -> BcdParseLaws(x.a.b, x.a.s)
                  [] x.k = "tsm" -> TimeLaws(x.a.t)
                  [] x.k = "tsu" -> TimeParseLaws(x.a.b)
                  [] x.k = "vpm" -> VPLaws(x.a.vp)
                  [] x.k = "vpu" -> VPParseLaws(x.a.b, x.a.f)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
\* the codes of relative periods are in order of the periods
ASSUME \A c \in 0..254 : RelPeriods[c] < RelPeriods[c + 1]
=============================================================================

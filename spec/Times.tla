-------------------------------- MODULE Times --------------------------------
(* Service centre time stamps and validity periods: 3GPP TS 23.040 9.2.3.11   *)
(* and 9.2.3.12.  A time is <<year, month, day, hour, minute, second, offset>> *)
(* with the offset in seconds east of UTC; a period is a number of seconds.   *)
EXTENDS Octets, Numbers

TruncDiv(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b

AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
Cat(rs) == IF AllOk(rs) THEN Good(FlattenSeq([i \in 1..Len(rs) |-> rs[i].b])) ELSE Fail

\* <<>>: the zero time of an unset field, year 1
MarshalTime(t) ==
  IF t = <<>> THEN Good(<<16, 16, 16, 0, 0, 0, 0>>)
  ELSE Cat(<<BcdEncode(t[1] % 100), BcdEncode(t[2]), BcdEncode(t[3]), BcdEncode(t[4]),
        BcdEncode(t[5]), BcdEncode(t[6]), BcdEncodeSigned(TruncDiv(t[7], 900))>>)

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(t) == t[2] \in 1..12 /\ t[3] \in 1..DaysIn(t[1], t[2])
                /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59
\* times whose value the wire format can hold
InRange(t) == /\ Len(t) = 7 /\ t[1] \in 1970..2069 /\ ValidDate(t)
              /\ t[7] % 900 = 0 /\ Abs(t[7]) <= 79 * 900

AnyTime == <<-1>>
\* st "ok", "err", or "may": octets that are no date may be refused or read as any time
ParseTime(src) ==
  IF Len(src) < 7 THEN [st |-> "err", t |-> <<>>]
  ELSE LET f  == [i \in 1..6 |-> BcdDecode(src[i])]
           tz == BcdDecodeSigned(src[7])
           y  == IF f[1].v < 70 THEN 2000 + f[1].v ELSE 1900 + f[1].v
           t  == <<y, f[2].v, f[3].v, f[4].v, f[5].v, f[6].v, tz.v * 900>>
       IN IF ~tz.ok \/ (\E i \in 1..6 : ~f[i].ok) THEN [st |-> "err", t |-> <<>>]
          ELSE IF ValidDate(t) THEN [st |-> "ok", t |-> t]
          ELSE [st |-> "may", t |-> AnyTime]
TimeMatches(want, got) == want = AnyTime \/ want = got

\* --- validity periods ---------------------------------------------------------
MINUTE == 60
HOUR == 3600
DAY == 86400
WEEK == 604800
RelPeriod(c) == IF c < 144 THEN 5 * MINUTE * (c + 1)
                ELSE IF c < 168 THEN 12 * HOUR + 30 * MINUTE * (c - 143)
                ELSE IF c < 197 THEN DAY * (c - 166)
                ELSE WEEK * (c - 192)
RelPeriods == [c \in 0..255 |-> RelPeriod(c)]
\* the code of the longest period that is not longer than s, or of the minimum
RelCode(s) == LET n == Cardinality({c \in 0..255 : RelPeriods[c] <= s})
              IN IF n = 0 THEN 0 ELSE n - 1

NOTPRESENT == 0
ENHANCED == 1
RELATIVE == 2
ABSOLUTE == 3
\* vp: [f, s, ns, efi, t]
EnhancedBody(vp) ==
  LET e == vp.efi % 8 IN
  IF e = 0 THEN <<0, 0, 0, 0, 0, 0>>
  ELSE IF e = 1 THEN <<RelCode(vp.s), 0, 0, 0, 0, 0>>
  ELSE IF e = 2 THEN <<Min2(vp.s, 255), 0, 0, 0, 0, 0>>
  ELSE LET b(v) == BcdEncode(v).b[1]
       IN <<b((vp.s \div HOUR) % 100), b((vp.s \div 60) % 60), b(vp.s % 60), 0, 0, 0>>
MarshalVP(vp) ==
  CASE vp.f = NOTPRESENT -> Good(<<>>)
    [] vp.f = RELATIVE -> Good(<<RelCode(vp.s)>>)
    [] vp.f = ABSOLUTE -> MarshalTime(vp.t)
    [] vp.f = ENHANCED -> IF vp.efi % 8 > 3 THEN Fail ELSE Good(<<vp.efi>> \o EnhancedBody(vp))
    [] OTHER -> Fail
\* the value a period has once it has been on the wire
WireVP(vp) ==
  IF vp.f = RELATIVE THEN [vp EXCEPT !.s = RelPeriod(RelCode(vp.s)), !.ns = 0, !.efi = 0, !.t = <<>>]
  ELSE IF vp.f = ABSOLUTE THEN [vp EXCEPT !.s = 0, !.ns = 0, !.efi = 0]
  ELSE IF vp.f = ENHANCED THEN
    [vp EXCEPT !.ns = 0, !.t = <<>>,
               !.s = CASE vp.efi % 8 = 0 -> 0
                       [] vp.efi % 8 = 1 -> RelPeriod(RelCode(vp.s))
                       [] vp.efi % 8 = 2 -> Min2(vp.s, 255)
                       [] OTHER -> vp.s]
  ELSE [f |-> 0, s |-> 0, ns |-> 0, efi |-> 0, t |-> <<>>]

NoVP == [f |-> 0, s |-> 0, ns |-> 0, efi |-> 0, t |-> <<>>]
VPErr == [st |-> "err", n |-> 0, vp |-> NoVP]
Zeros(src, a, b) == \A i \in a..b : src[i] = 0
ParseVP(src, f) ==
  CASE f = NOTPRESENT -> [st |-> "ok", n |-> 0, vp |-> NoVP]
    [] f = RELATIVE ->
         IF src = <<>> THEN VPErr
         ELSE [st |-> "ok", n |-> 1, vp |-> [NoVP EXCEPT !.f = f, !.s = RelPeriod(src[1])]]
    [] f = ABSOLUTE ->
         LET r == ParseTime(src)
         IN [st |-> r.st, n |-> 7, vp |-> [NoVP EXCEPT !.f = f, !.t = r.t]]
    [] f = ENHANCED ->
         IF Len(src) < 7 \/ src[1] % 8 > 3 THEN VPErr
         ELSE LET e == src[1] % 8
                  good(s) == [st |-> "ok", n |-> 7, vp |-> [NoVP EXCEPT !.f = f, !.efi = src[1], !.s = s]]
              IN IF e = 0 THEN IF Zeros(src, 2, 7) THEN good(0) ELSE VPErr
                 ELSE IF e < 3
                 THEN IF ~Zeros(src, 3, 7) THEN VPErr
                      ELSE good(IF e = 1 THEN RelPeriod(src[2]) ELSE src[2])
                 ELSE LET h == BcdDecode(src[2])
                          m == BcdDecode(src[3])
                          s == BcdDecode(src[4])
                      IN IF ~h.ok \/ ~m.ok \/ ~s.ok \/ ~Zeros(src, 5, 7) THEN VPErr
                         ELSE good(h.v * HOUR + m.v * 60 + s.v)
    [] OTHER -> VPErr
VPMatches(want, got) ==
  /\ want.f = got.f /\ want.s = got.s /\ want.ns = got.ns /\ want.efi = got.efi
  /\ TimeMatches(want.t, got.t)
=============================================================================

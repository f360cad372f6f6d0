-------------------------------- MODULE Tpdu --------------------------------
(* The six TPDU types on the wire: 3GPP TS 23.040 9.2.2.                       *)
(* A TPDU is a record of all the fields; those a type does not have are zero. *)
EXTENDS Octets, Septets, Header, Numbers, Times, Dcs

\* types: 2 * message type indicator + direction (1: mobile originated)
DELIVER == 0
DELIVERREPORT == 1
SUBMITREPORT == 2
SUBMIT == 3
STATUSREPORT == 4
COMMAND == 5
TypeOf(fo, dir) == 2 * (fo % 4) + dir
NameOfType == <<"SmsDeliver", "SmsDeliverReport", "SmsSubmitReport", "SmsSubmit", "SmsStatusReport", "SmsCommand">>

UdhiBit == 6
HasUDHI(fo) == Bit(fo, UdhiBit) = 1
VPF(fo) == Field(fo, 3, 2)
PiPID(pi) == Bit(pi, 0) = 1
PiDCS(pi) == Bit(pi, 1) = 1
PiUDL(pi) == Bit(pi, 2) = 1

NoAddr == [toa |-> 0, a |-> <<>>]
ZeroTPDU == [dir |-> 0, fo |-> 0, oa |-> NoAddr, fcs |-> 0, mr |-> 0, ct |-> 0, mn |-> 0,
             da |-> NoAddr, ra |-> NoAddr, pi |-> 0, scts |-> <<>>, dt |-> <<>>, st |-> 0,
             pid |-> 0, dcs |-> 0, vp |-> NoVP, udh |-> <<>>, ud |-> <<>>]

\* --- user data -------------------------------------------------------------------
FillBits(hlen) == (7 - (hlen % 7)) % 7                    \* after a header of hlen octets
HeaderSeptets(hlen) == (8 * hlen + 6) \div 7
\* the UDL of a header alone is the number of whole septets in it
MarshalUD(alpha, udh, ud) ==
  LET h == MarshalHeader(udh) IN
  IF ~h.ok THEN Fail
  ELSE IF alpha = A7
  THEN LET hl  == Len(h.b)
           udl == IF ud = <<>> THEN (8 * hl) \div 7 ELSE HeaderSeptets(hl) + Len(ud)
       IN IF udl > 255 THEN Fail
          ELSE Good(<<udl>> \o h.b \o Pack(ud, FillBits(hl)))
  ELSE IF alpha = AUCS2 /\ Len(ud) % 2 = 1 THEN Fail
  ELSE IF Len(h.b) + Len(ud) > 255 THEN Fail
  ELSE Good(<<Len(h.b) + Len(ud)>> \o h.b \o ud)

UDErr == [st |-> "err", udh |-> <<>>, ud |-> <<>>]
\* alphaOk: the coding group is not a reserved one
ParseUD(src, udhi, alpha, alphaOk) ==
  IF src = <<>> THEN UDErr
  ELSE IF src[1] = 0
  THEN IF Len(src) > 1 THEN UDErr
       ELSE [UDErr EXCEPT !.st = IF udhi \/ ~alphaOk THEN "may" ELSE "ok"]
  ELSE IF ~alphaOk THEN UDErr
  ELSE LET octets == IF alpha = A7 THEN (7 * src[1] + 7) \div 8 ELSE src[1]
           body == Tail(src)
       IN IF Len(body) # octets THEN UDErr
          ELSE LET h == IF udhi THEN ParseHeader(body) ELSE [ok |-> TRUE, n |-> 0, ies |-> <<>>]
                   rest == Rest(body, h.n)
               IN IF ~h.ok THEN UDErr
                  ELSE IF rest = <<>> THEN [st |-> "ok", udh |-> h.ies, ud |-> <<>>]
                  ELSE IF alpha = A7
                  THEN LET s == Unpack(rest, FillBits(h.n))
                           n == src[1] - HeaderSeptets(h.n)
                           extra == Rest(s, n)
                       IN \* a septet beyond the last is padding, or more than the length says
                          IF \E i \in 1..Len(extra) : extra[i] # 0 THEN UDErr
                          ELSE [st |-> "ok", udh |-> h.ies, ud |-> Take(s, n)]
                  ELSE IF alpha = AUCS2 /\ Len(rest) % 2 = 1 THEN UDErr
                  ELSE [st |-> "ok", udh |-> h.ies, ud |-> rest]

\* --- marshal -----------------------------------------------------------------------
Oct(x) == Good(<<x>>)
If(c, r) == IF c THEN r ELSE Good(<<>>)
UDOf(t) == IF ~AlphabetOk(t.dcs) THEN Fail ELSE MarshalUD(Alphabet(t.dcs), t.udh, t.ud)
Optionals(t) == <<If(PiPID(t.pi), Oct(t.pid)), If(PiDCS(t.pi), Oct(t.dcs)), If(PiUDL(t.pi), UDOf(t))>>
Marshal(t) ==
  LET ty == TypeOf(t.fo, t.dir) IN
  CASE ty = DELIVER ->
         Cat(<<Oct(t.fo), MarshalAddress(t.oa), Oct(t.pid), Oct(t.dcs), MarshalTime(t.scts), UDOf(t)>>)
    [] ty = SUBMIT ->
         Cat(<<Oct(t.fo), Oct(t.mr), MarshalAddress(t.da), Oct(t.pid), Oct(t.dcs), MarshalVP(t.vp), UDOf(t)>>)
    [] ty = COMMAND ->
         Cat(<<Oct(t.fo), Oct(t.mr), Oct(t.pid), Oct(t.ct), Oct(t.mn), MarshalAddress(t.da),
               MarshalUD(A8, t.udh, t.ud)>>)
    [] ty = STATUSREPORT ->
         Cat(<<Oct(t.fo), Oct(t.mr), MarshalAddress(t.ra), MarshalTime(t.scts), MarshalTime(t.dt),
               Oct(t.st), If(t.pi # 0, Oct(t.pi))>> \o Optionals(t))
    [] ty = DELIVERREPORT ->
         Cat(<<Oct(t.fo), If(t.fcs # 0, Oct(t.fcs)), Oct(t.pi)>> \o Optionals(t))
    [] ty = SUBMITREPORT ->
         Cat(<<Oct(t.fo), If(t.fcs # 0, Oct(t.fcs)), Oct(t.pi), MarshalTime(t.scts)>> \o Optionals(t))
    [] OTHER -> Fail

\* --- unmarshal: [st, t] ---------------------------------------------------------------
\* st "ok": accepted as t; "err": refused; "may": refused, or accepted as t
TErr == [st |-> "err", t |-> ZeroTPDU]
Weaker(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "may" \/ b = "may" THEN "may" ELSE "ok"
WithUDOf(t, st, src, alpha, alphaOk) ==
  LET u == ParseUD(src, HasUDHI(t.fo), alpha, alphaOk)
  IN IF u.st = "err" THEN TErr
     ELSE [st |-> Weaker(st, u.st), t |-> [t EXCEPT !.udh = u.udh, !.ud = u.ud]]
\* PID, DCS and UD as the indicator says
ParseOptionals(t, st, src) ==
  LET n1 == IF PiPID(t.pi) THEN 1 ELSE 0
      n2 == n1 + (IF PiDCS(t.pi) THEN 1 ELSE 0)
  IN IF Len(src) < n2 THEN TErr
     ELSE LET pid == IF PiPID(t.pi) THEN src[1] ELSE 0
              dcs == IF PiDCS(t.pi) THEN src[n2] ELSE 0
              t1  == [t EXCEPT !.pid = pid, !.dcs = dcs]
              rest == Rest(src, n2)
          IN IF PiUDL(t.pi) THEN WithUDOf(t1, st, rest, Alphabet(dcs), AlphabetOk(dcs))
             ELSE [st |-> IF rest # <<>> \/ ~AlphabetOk(dcs) THEN "may" ELSE st, t |-> t1]
Unmarshal(dir, src) ==
  IF src = <<>> THEN TErr
  ELSE LET fo == src[1]
           ty == TypeOf(fo, dir)
           z  == [ZeroTPDU EXCEPT !.dir = dir, !.fo = fo]
           s1 == Tail(src)
       IN
  CASE ty = DELIVER ->
         LET a == ParseAddress(s1) IN
         IF a.st = "err" THEN TErr
         ELSE LET r == Rest(s1, a.n) IN
              IF Len(r) < 9 THEN TErr
              ELSE LET ts == ParseTime(Rest(r, 2)) IN
                   IF ts.st = "err" THEN TErr
                   ELSE WithUDOf([z EXCEPT !.oa = [toa |-> a.toa, a |-> a.a], !.pid = r[1], !.dcs = r[2],
                                           !.scts = ts.t],
                                 ts.st, Rest(r, 9), Alphabet(r[2]), AlphabetOk(r[2]))
    [] ty = SUBMIT ->
         IF s1 = <<>> THEN TErr ELSE
         LET a == ParseAddress(Tail(s1)) IN
         IF a.st = "err" THEN TErr
         ELSE LET r == Rest(s1, 1 + a.n) IN
              IF Len(r) < 2 THEN TErr
              ELSE LET vp == ParseVP(Rest(r, 2), VPF(fo)) IN
                   IF vp.st = "err" THEN TErr
                   ELSE WithUDOf([z EXCEPT !.mr = s1[1], !.da = [toa |-> a.toa, a |-> a.a], !.pid = r[1],
                                           !.dcs = r[2], !.vp = vp.vp],
                                 vp.st, Rest(r, 2 + vp.n), Alphabet(r[2]), AlphabetOk(r[2]))
    [] ty = COMMAND ->
         IF Len(s1) < 4 THEN TErr ELSE
         LET a == ParseAddress(Rest(s1, 4)) IN
         IF a.st = "err" THEN TErr
         ELSE \* the command data are octets: 8 bit
              WithUDOf([z EXCEPT !.mr = s1[1], !.pid = s1[2], !.ct = s1[3], !.mn = s1[4],
                                 !.da = [toa |-> a.toa, a |-> a.a], !.dcs = 4],
                       "ok", Rest(s1, 4 + a.n), A8, TRUE)
    [] ty = STATUSREPORT ->
         IF s1 = <<>> THEN TErr ELSE
         LET a == ParseAddress(Tail(s1)) IN
         IF a.st = "err" THEN TErr
         ELSE LET r == Rest(s1, 1 + a.n) IN
              IF Len(r) < 15 THEN TErr
              ELSE LET ts == ParseTime(r)
                       dt == ParseTime(Rest(r, 7))
                       t  == [z EXCEPT !.mr = s1[1], !.ra = [toa |-> a.toa, a |-> a.a],
                                       !.scts = ts.t, !.dt = dt.t, !.st = r[15]]
                       st == Weaker(ts.st, dt.st)
                   IN IF st = "err" THEN TErr
                      ELSE IF Len(r) = 15 THEN [st |-> st, t |-> t]
                      ELSE ParseOptionals([t EXCEPT !.pi = r[16]], st, Rest(r, 16))
    [] ty = DELIVERREPORT ->
         IF Len(s1) < 2 THEN TErr
         ELSE ParseOptionals([z EXCEPT !.fcs = s1[1], !.pi = s1[2]], "ok", Rest(s1, 2))
    [] ty = SUBMITREPORT ->
         IF Len(s1) < 9 THEN TErr
         ELSE LET ts == ParseTime(Rest(s1, 2)) IN
              IF ts.st = "err" THEN TErr
              ELSE ParseOptionals([z EXCEPT !.fcs = s1[1], !.pi = s1[2], !.scts = ts.t], ts.st, Rest(s1, 9))
    [] OTHER -> TErr

TPDUMatches(want, got) ==
  /\ \A f \in {"dir", "fo", "oa", "fcs", "mr", "ct", "mn", "da", "ra", "pi", "st", "pid", "dcs", "udh", "ud"} :
        want[f] = got[f]
  /\ TimeMatches(want.scts, got.scts) /\ TimeMatches(want.dt, got.dt)
  /\ VPMatches(want.vp, got.vp)

\* --- a TPDU that can be represented: its round trip must be exact -----------------------
ValidUD(t, alpha) == IF alpha = A7 THEN \A i \in 1..Len(t.ud) : t.ud[i] < 128 ELSE TRUE
Consistent(t) == HasUDHI(t.fo) = (t.udh # <<>>)
WithOptionals(t) ==
  /\ PiPID(t.pi) \/ t.pid = 0
  /\ PiDCS(t.pi) \/ t.dcs = 0
  /\ PiUDL(t.pi) \/ (t.udh = <<>> /\ t.ud = <<>>)
  /\ AlphabetOk(t.dcs) /\ ValidUD(t, Alphabet(t.dcs))
  /\ PiUDL(t.pi) => Consistent(t)
WireTPDU(t) ==          \* its fields, as they are on the wire
  LET ty == TypeOf(t.fo, t.dir)
      z == [ZeroTPDU EXCEPT !.dir = t.dir, !.fo = t.fo]
      u == [z EXCEPT !.pid = t.pid, !.dcs = t.dcs, !.udh = t.udh, !.ud = t.ud]
      o == [u EXCEPT !.pi = t.pi]
  IN CASE ty = DELIVER -> [u EXCEPT !.oa = t.oa, !.scts = t.scts]
       [] ty = SUBMIT -> [u EXCEPT !.mr = t.mr, !.da = t.da, !.vp = WireVP(t.vp)]
       [] ty = COMMAND -> [u EXCEPT !.mr = t.mr, !.da = t.da, !.ct = t.ct, !.mn = t.mn, !.dcs = 4]
       [] ty = STATUSREPORT -> [o EXCEPT !.mr = t.mr, !.ra = t.ra, !.scts = t.scts, !.dt = t.dt, !.st = t.st]
       [] ty = DELIVERREPORT -> [o EXCEPT !.fcs = t.fcs]
       [] ty = SUBMITREPORT -> [o EXCEPT !.fcs = t.fcs, !.scts = t.scts]
       [] OTHER -> t
ValidVP(vp) == CASE vp.f = ABSOLUTE -> InRange(vp.t)
                 [] vp.f = ENHANCED -> vp.efi % 8 <= 3 /\ (vp.efi % 8 = 3 => vp.s < 360000)
                 [] OTHER -> vp.f \in {NOTPRESENT, RELATIVE}
ValidTPDU(t) ==
  LET ty == TypeOf(t.fo, t.dir) IN
  CASE ty = DELIVER -> InRange(t.scts) /\ AlphabetOk(t.dcs) /\ ValidUD(t, Alphabet(t.dcs)) /\ Consistent(t)
    [] ty = SUBMIT -> /\ t.vp.f = VPF(t.fo) /\ ValidVP(t.vp)
                      /\ AlphabetOk(t.dcs) /\ ValidUD(t, Alphabet(t.dcs)) /\ Consistent(t)
    [] ty = COMMAND -> Consistent(t)
    [] ty = STATUSREPORT -> InRange(t.scts) /\ InRange(t.dt) /\ WithOptionals(t)
    [] ty = DELIVERREPORT -> WithOptionals(t)
    [] ty = SUBMITREPORT -> InRange(t.scts) /\ WithOptionals(t)
    [] OTHER -> FALSE
=============================================================================

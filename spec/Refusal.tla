------------------------------- MODULE Refusal -------------------------------
(* What a refused TPDU is refused for: the first field, in the order on the   *)
(* wire, that cannot be read, and the offset where it starts; or for one that *)
(* cannot be written, a field that cannot be.                                  *)
EXTENDS Tpdu

\* A walk over the octets: what has been read (t, of it the fields in got) up to
\* at, and the refusals it met: [f, g, lo, hi, why, got], a field f, in it g ("" if it has
\* no parts), with an offset in lo..hi. Those that are only possible do not stop it.
Under == "underflow"
Over == "overlength"
Other == "other"
AnyWhy == "any"
Meet(w, f, g, lo, hi, why) == [w EXCEPT !.out = @ \cup {[f |-> f, g |-> g, lo |-> lo, hi |-> hi, why |-> why, got |-> w.got]}]
Stop(w, f, g, lo, hi, why) == [Meet(w, f, g, lo, hi, why) EXCEPT !.stop = TRUE]
Read(w, n, f, v) == [w EXCEPT !.at = @ + n, !.got = @ \cup {f}, !.t = [@ EXCEPT ![f] = v]]

OctetF(w, src, f) ==
  IF w.stop THEN w
  ELSE IF w.at >= Len(src) THEN Stop(w, f, "", w.at, w.at, Under)
  ELSE Read(w, 1, f, src[w.at + 1])
AddrF(w, src, f) ==
  IF w.stop THEN w
  ELSE LET r == Rest(src, w.at)
           a == ParseAddress(r)
       IN IF Len(r) < 2 THEN Stop(w, f, "addr", w.at, w.at, Under)
          ELSE IF Len(r) < 2 + (r[1] + 1) \div 2 THEN Stop(w, f, "addr", w.at + 2, w.at + 2, Under)
          ELSE IF a.st = "err" THEN Stop(w, f, "addr", w.at + 2, w.at + 2, AnyWhy)
          ELSE Read(w, a.n, f, [toa |-> a.toa, a |-> a.a])
TimeF(w, src, f) ==
  IF w.stop THEN w
  ELSE LET r == Rest(src, w.at)
           p == ParseTime(r)
       IN IF Len(r) < 7 THEN Stop(w, f, "", w.at, w.at, Under)
          ELSE IF p.st = "err" THEN Stop(w, f, "", w.at, w.at, Other)
          ELSE Read(IF p.st = "may" THEN Meet(w, f, "", w.at, w.at, Other) ELSE w, 7, f, p.t)
VpF(w, src, vpf) ==
  IF w.stop THEN w
  ELSE LET r == Rest(src, w.at)
           p == ParseVP(r, vpf)
           short == Len(r) < (CASE vpf = RELATIVE -> 1 [] vpf \in {ABSOLUTE, ENHANCED} -> 7 [] OTHER -> 0)
       IN IF short THEN Stop(w, "vp", "", w.at, w.at, Under)
          ELSE IF p.st = "err"
          THEN IF vpf = ENHANCED THEN Stop(w, "vp", "enhanced", w.at, w.at + 6, Other)
               ELSE Stop(w, "vp", "", w.at, w.at, Other)
          ELSE Read(IF p.st = "may" THEN Meet(w, "vp", "", w.at, w.at, Other) ELSE w, p.n, "vp", p.vp)
UdF(w, src, udhi, alpha, alphaOk) ==
  IF w.stop THEN w
  ELSE LET r == Rest(src, w.at)
           body == Tail(r)
           u == ParseUD(r, udhi, alpha, alphaOk)
           octets == IF alpha = A7 THEN (7 * r[1] + 7) \div 8 ELSE r[1]
           h == ParseHeader(body)
       IN IF r = <<>> THEN Stop(w, "ud", "udl", w.at, w.at, Under)
          ELSE IF r[1] = 0 THEN IF body # <<>> THEN Stop(w, "ud", "ud", w.at + 1, w.at + 1, Over)
                                ELSE IF u.st = "may" THEN [w EXCEPT !.any = TRUE] ELSE w
          ELSE IF ~alphaOk THEN Stop(w, "ud", "alphabet", w.at + 1, w.at + 1, Other)
          ELSE IF Len(body) < octets THEN Stop(w, "ud", "sm", w.at + 1, w.at + 1, Under)
          ELSE IF Len(body) > octets THEN Stop(w, "ud", "ud", w.at + 1, w.at + 1, Over)
          ELSE IF udhi /\ ~h.ok THEN Stop(w, "ud", "udh", w.at + 1, w.at + 2 + body[1], Under)
          ELSE LET at == w.at + 1 + (IF udhi THEN h.n ELSE 0)
               IN IF u.st = "err" THEN Stop(w, "ud", "sm", at, at, IF alpha = A7 THEN Over ELSE Other) ELSE w
OptionalsF(w, src) ==
  LET w1 == IF PiPID(w.t.pi) THEN OctetF(w, src, "pid") ELSE w
      w2 == IF PiDCS(w.t.pi) THEN OctetF(w1, src, "dcs") ELSE w1
  IN IF w2.stop THEN w2
     ELSE IF PiUDL(w2.t.pi)
     THEN UdF(w2, src, HasUDHI(w2.t.fo), Alphabet(w2.t.dcs), AlphabetOk(w2.t.dcs))
     \* an unused alphabet, or octets at the end, may be refused
     ELSE IF Len(src) > w2.at \/ ~AlphabetOk(w2.t.dcs) THEN [w2 EXCEPT !.any = TRUE] ELSE w2
Walk(dir, src) ==
  LET z == [at |-> 1, t |-> [ZeroTPDU EXCEPT !.dir = dir, !.fo = src[1]], got |-> {"fo"}, out |-> {}, stop |-> FALSE, any |-> FALSE]
      ty == TypeOf(src[1], dir)
      F(w, f) == OctetF(w, src, f)
      A(w, f) == AddrF(w, src, f)
      T(w, f) == TimeF(w, src, f)
      U(w) == UdF(w, src, HasUDHI(w.t.fo), Alphabet(w.t.dcs), AlphabetOk(w.t.dcs))
      O(w) == IF w.stop THEN w ELSE OptionalsF(w, src)
  IN CASE ty = DELIVER -> U(T(F(F(A(z, "oa"), "pid"), "dcs"), "scts"))
       [] ty = SUBMIT -> U(VpF(F(F(A(F(z, "mr"), "da"), "pid"), "dcs"), src, VPF(src[1])))
       [] ty = COMMAND -> UdF(A(F(F(F(F(z, "mr"), "pid"), "ct"), "mn"), "da"), src, HasUDHI(src[1]), A8, TRUE)
       [] ty = STATUSREPORT -> LET w == F(T(T(A(F(z, "mr"), "ra"), "scts"), "dt"), "st")
                               IN IF w.stop \/ w.at = Len(src) THEN w ELSE O(F(w, "pi"))
       [] ty = DELIVERREPORT -> O(F(F(z, "fcs"), "pi"))
       [] ty = SUBMITREPORT -> O(T(F(F(z, "fcs"), "pi"), "scts"))
\* message type 3 is no type
FirstOctet(src) == src = <<>> \/ src[1] % 4 = 3
FirstRefusal(src) == [f |-> "firstOctet", g |-> "", lo |-> 0, hi |-> 0, why |-> IF src = <<>> THEN Under ELSE Other, got |-> {}]

Path(ty, x) == <<NameOfType[ty + 1], x.f>> \o (IF x.g = "" THEN <<>> ELSE <<x.g>>)
SameField(f, want, got) == CASE f \in {"scts", "dt"} -> TimeMatches(want, got)
                             [] f = "vp" -> VPMatches(want, got)
                             [] OTHER -> want = got
\* the refusal r: path, off and why, and the TPDU as it was read so far, if t is known
IsRefusal(x, path, r) ==
  /\ Len(r.path) >= Len(path) /\ Take(r.path, Len(path)) = path
  /\ r.off \in x.lo..x.hi
  /\ x.why = AnyWhy \/ r.why = x.why
  /\ r.txt
IsPartial(w, x, t) ==
  \* each field before it has been read, and none after it
  /\ \A f \in x.got : SameField(f, w.t[f], t[f])
  /\ \A f \in {"oa", "fcs", "mr", "ct", "mn", "da", "ra", "pi", "scts", "dt", "st", "pid", "dcs"} :
       (f \notin x.got /\ f # x.f /\ ~(f = "dcs" /\ TypeOf(t.fo, t.dir) = COMMAND)) => t[f] = ZeroTPDU[f]
RejRec(a, r) ==
  IF FirstOctet(a.b) THEN ~r.ok /\ IsRefusal(FirstRefusal(a.b), <<"tpdu", "firstOctet">>, r)
  ELSE LET w == Walk(a.dir, a.b)
       IN w.any
          \/ IF r.ok THEN ~w.stop
             ELSE \E x \in w.out : /\ IsRefusal(x, Path(TypeOf(a.b[1], a.dir), x), r)
                                   /\ a.via = 1 => IsPartial(w, x, r.t)

\* --- marshalling: the fields that cannot be written ------------------------------
BadUD(t) == IF UDOf(t).ok THEN {} ELSE {"ud"}
\* of a bad field, the parts that cannot be written; {} for a field without parts
BadParts(f, t) ==
  CASE f \in {"oa", "da", "ra"} -> {"addr"}
    [] f = "vp" -> IF t.vp.f > 3 THEN {"vpf"} ELSE IF t.vp.f = ENHANCED THEN {"fi"} ELSE {}
    [] f = "ud" -> (IF MarshalHeader(t.udh).ok THEN {} ELSE {"udh"}) \cup (IF AlphabetOk(t.dcs) THEN {} ELSE {"alphabet"})
                   \cup (IF AlphabetOk(t.dcs) /\ MarshalHeader(t.udh).ok THEN {"sm"} ELSE {})
    [] OTHER -> {}
BadField(f, m) == IF m.ok THEN {} ELSE {f}
Bad(t) ==
  LET ty == TypeOf(t.fo, t.dir)
      opt == IF PiUDL(t.pi) THEN BadUD(t) ELSE {}
  IN CASE ty = DELIVER -> BadField("oa", MarshalAddress(t.oa)) \cup BadField("scts", MarshalTime(t.scts)) \cup BadUD(t)
       [] ty = SUBMIT -> BadField("da", MarshalAddress(t.da)) \cup BadField("vp", MarshalVP(t.vp)) \cup BadUD(t)
       [] ty = COMMAND -> BadField("da", MarshalAddress(t.da)) \cup
                          (IF ~MarshalHeader(t.udh).ok THEN {"udh"} ELSE IF ~MarshalUD(A8, t.udh, t.ud).ok THEN {"cd"} ELSE {})
       [] ty = STATUSREPORT -> BadField("ra", MarshalAddress(t.ra)) \cup BadField("scts", MarshalTime(t.scts))
                               \cup BadField("dt", MarshalTime(t.dt)) \cup opt
       [] ty = DELIVERREPORT -> opt
       [] ty = SUBMITREPORT -> BadField("scts", MarshalTime(t.scts)) \cup opt
RejmRec(a, r) ==
  IF a.t.fo % 4 = 3 THEN ~r.ok
  ELSE LET bad == Bad(a.t)
       IN IF bad = {} THEN r.ok
          ELSE /\ ~r.ok /\ Len(r.path) >= 2
               /\ r.path[1] = NameOfType[TypeOf(a.t.fo, a.t.dir) + 1] /\ r.path[2] \in bad
               /\ LET parts == BadParts(r.path[2], a.t) IN parts # {} => Len(r.path) >= 3 /\ r.path[3] \in parts

\* --- PDU mode: the SMSC address before the TPDU ------------------------------------
RejpRec(a, r) ==
  LET b == a.b
      Found(g, n) == ~r.ok /\ r.path = <<g>> /\ r.off = n /\ r.why = Under /\ r.txt
  IN IF b = <<>> THEN Found("length", 0)
     ELSE IF b[1] = 0 THEN r.ok
     ELSE IF Len(b) < 2 THEN Found("toa", 1)
     ELSE IF Len(b) < 1 + b[1] THEN Found("addr", 2)
     ELSE r.ok
=============================================================================

-------------------------------- MODULE Oracle --------------------------------
(* Conformance of recorded calls of the implementation: each record r holds   *)
(* the kind of call r.k, its arguments r.a and its results r.r, as observed;  *)
(* r.x is not "" if the call panicked or did not return.                       *)
EXTENDS Tools, Isolation, Sharing, Refusal, Names, Errors

\* an outcome that may fail
Same(want, ok, b) == IF want.ok THEN ok /\ b = want.b ELSE ~ok

PackRec(a, r) == r.p = IF a.ussd THEN PackUSSD(a.u, a.f) ELSE Pack(a.u, a.f)
UnpackRec(a, r) == r.u = IF a.ussd THEN UnpackUSSD(a.p, a.f) ELSE Unpack(a.p, a.f)
\* unpacking what was packed
PackTrip(a, r) ==
  LET spare == (8 * Len(r.p) - a.f) - 7 * Len(a.u)
  IN IF a.ussd THEN r.u = UnpackUSSD(r.p, a.f)
     ELSE r.u = a.u \o (IF a.u # <<>> /\ spare = 7 THEN <<0>> ELSE <<>>)

GEncRec(a, r) ==
  IF Encodable(a.cps, a.l, a.s) THEN r.ok /\ IsEncoding(r.g, a.cps, a.l, a.s) ELSE ~r.ok
\* and back with the same tables
GTripRec(a, r) ==
  /\ GEncRec(a, r)
  /\ r.ok => r.b = Utf8(a.cps)
GDecRec(a, r) ==
  LET d == GsmDecode(a.g, a.l, a.s, a.strict)
  IN IF d.ok THEN r.ok /\ r.b = Utf8(d.b) ELSE ~r.ok
CTabRec(a, r) ==
  LET tab == IF a.shift THEN Shift(a.n) ELSE Locking(a.n)
      rev == IF a.shift THEN RS(a.n) ELSE RL(a.n)
      dec == {<<s, tab[s+1]>> : s \in {s \in 0..127 : tab[s+1] # -1}}
      got == {r.dec[i] : i \in 1..Len(r.dec)}
      enc == {r.enc[i] : i \in 1..Len(r.enc)}
  IN /\ {p \in got : p[1] # ESC} = dec
     /\ {p[1] : p \in enc} \ {ESC} = Chars(tab) \ {ESC}
     /\ \A p \in enc : p[1] # ESC => p[2] \in SeptetsOf(rev, p[1])

UEncRec(a, r) == r.b = Ucs2Encode(a.cps)
UDecRec(a, r) == LET d == Ucs2Decode(a.b)
                 IN r.st = d.st /\ (d.st # "odd" => r.cps = d.b) /\ r.d = d.d
UTripRec(a, r) == r.b = Ucs2Encode(a.cps) /\ r.st = "ok" /\ r.cps = [i \in 1..Len(a.cps) |-> Sane(a.cps[i])]

DecRec(a, r) ==
  LET d == Decode(a.segs, IF a.def THEN ALLNLI ELSE a.lock, IF a.def THEN ALLNLI ELSE a.shift)
  IN CASE d.st = "ok" -> r.ok /\ r.b = d.b
       [] d.st = "err" -> ~r.ok
\* the segments were cut from one text: their decoding is that text
SplitRec(a, r) == DecRec(a, r) /\ (a.whole => r.ok /\ r.b = Utf8(a.cps))
DUDRec(a, r) ==
  LET d == DecodeUD(a.ud, a.udh, a.alpha, a.lock, a.shift)
  IN r.st = d.st /\ (d.st # "err" => r.b = d.b)

UdhmRec(a, r) ==
  LET m == MarshalHeader(a.ies) IN
  /\ Same(m, r.ok, r.b) /\ r.udhl = HeaderLen(a.ies)
  /\ (m.ok /\ a.ies # <<>>) => /\ r.uok /\ r.n = Len(m.b) /\ r.ies = a.ies
UdhuRec(a, r) == LET p == ParseHeader(a.b)
                 IN IF p.ok THEN r.ok /\ r.n = p.n /\ r.ies = p.ies ELSE ~r.ok
CI(c) == [ok |-> c.ok, total |-> c.total, seqno |-> c.seqno, ref |-> c.ref]
IesRec(a, r) ==
  /\ r.found = HasIE(a.ies, a.id)
  /\ r.found => r.ie = LastIE(a.ies, a.id)
  /\ r.all = WithId(a.ies, a.id)
  /\ r.ci = ConcatInfo(a.ies) /\ r.ci8 = Concat8(a.ies) /\ r.ci16 = Concat16(a.ies)

AddrmRec(a, r) ==
  LET m == MarshalAddress(a.ad) IN
  /\ Same(m, r.ok, r.b)
  /\ m.ok => r.uok /\ r.n = Len(m.b) /\ r.ad = a.ad
AddruRec(a, r) ==
  LET p == ParseAddress(a.b)
  IN CASE p.st = "ok" -> r.ok /\ r.n = p.n /\ r.ad = [toa |-> p.toa, a |-> p.a]
       [] p.st = "err" -> ~r.ok
NumRec(a, r) ==
  /\ r.set = SetNumber(a.ad, a.num) /\ r.setnum = Number(r.set)
  /\ r.new = NewNumber(a.num) /\ r.newnum = Number(r.new)
  /\ r.num = Number(a.ad)
  /\ r.ton = TON(a.ad.toa) /\ r.np = NPI(a.ad.toa)
  /\ r.setton = SetField(a.ad.toa, 4, 3, a.ton) /\ r.setnp = SetField(a.ad.toa, 0, 4, a.np)
SemieRec(a, r) == Same(SemiEncode(a.a), r.ok, r.b)
\* at most n digits: if the octets hold one more, the last must be fill
SemidRec(a, r) ==
  LET nibs == Nibbles(a.b)
      k == Min2((a.n + 1) \div 2, Len(a.b))          \* octets to read
      used == Take(nibs, 2 * k)
      dig == Take(used, a.n)
  IN IF a.n % 2 = 1 /\ Len(used) > a.n
     THEN IF \E i \in 1..a.n : used[i] = FILL THEN TRUE
          ELSE IF used[a.n + 1] # FILL THEN ~r.ok
          ELSE r.ok /\ r.a = ToDigits(dig) /\ r.n = k
     ELSE IF \E i \in 1..Len(dig) : dig[i] = FILL
     THEN \* fill only at the very end: it is no digit
          (\A i \in 1..Len(dig) : dig[i] = FILL => i = Len(dig)) /\ Len(dig) = Len(nibs)
            => r.ok /\ r.a = ToDigits(NoFill(dig)) /\ r.n = k
     ELSE r.ok /\ r.a = ToDigits(dig) /\ r.n = k

BcdRec(a, r) == Same(IF a.s THEN BcdEncodeSigned(a.v) ELSE BcdEncode(a.v), r.ok, r.b)
BcddRec(a, r) == LET d == IF a.s THEN BcdDecodeSigned(a.b) ELSE BcdDecode(a.b)
                 IN IF d.ok THEN r.ok /\ r.v = d.v ELSE ~r.ok
TsmRec(a, r) ==
  LET m == MarshalTime(a.t) IN
  /\ InRange(a.t) => Same(m, r.ok, r.b) /\ r.uok /\ r.t = a.t
  /\ Abs(a.t[7]) >= 80 * 900 => ~r.ok
TsuRec(a, r) ==
  LET p == ParseTime(a.b)
  IN CASE p.st = "ok" -> r.ok /\ r.t = p.t
       [] p.st = "err" -> ~r.ok
       [] p.st = "may" -> TRUE
VpmRec(a, r) ==
  LET m == MarshalVP(a.vp) IN
  IF a.vp.f = ABSOLUTE /\ ~InRange(a.vp.t) THEN TRUE
  ELSE IF a.vp.f = ENHANCED /\ a.vp.efi % 8 = 3 /\ a.vp.s >= 360000 THEN TRUE
  ELSE /\ Same(m, r.ok, r.b)
       /\ m.ok => r.uok /\ r.n = Len(m.b) /\ r.vp = WireVP(a.vp)
VpuRec(a, r) ==
  LET p == ParseVP(a.b, a.f)
  IN CASE p.st = "ok" -> /\ r.ok /\ r.n = p.n /\ VPMatches(p.vp, r.vp)
                         \* and back to the same octets, but for 60 or more minutes or seconds,
                         \* and an offset of minus zero
                         /\ IF a.f # ENHANCED \/ p.vp.efi % 8 # 3 \/ p.vp.s < 360000
                            THEN r.mok /\ r.m = MarshalVP(r.vp).b ELSE TRUE
                         /\ a.f # ENHANCED \/ p.vp.efi % 8 # 3 \/ (BcdDecode(a.b[3]).v < 60 /\ BcdDecode(a.b[4]).v < 60)
                              => r.m = Take(a.b, p.n) \/ (a.f = ABSOLUTE /\ a.b[7] = 8)
       [] p.st = "err" -> ~r.ok
       [] p.st = "may" -> r.ok => r.vp.f = a.f
VpeRec(a, r) == Len(r.vps) = Len(a.edits) /\ \A i \in 1..Len(a.edits) : r.vps[i] = VPEdit(a.edits[i])

DcsRec(a, r) ==
  LET d == a.d IN
  /\ r.alpha = Alphabet(d) /\ r.alphaok = AlphabetOk(d)
  /\ r.class = Class(d) /\ (HasClass(d) => r.classok) /\ (Reserved(d) => ~r.classok)
  /\ r.comp = Compressed(d)
  /\ \A x \in 0..2 : LET w == r.wa[x+1] IN
        IF CanAlphabet(d, x) THEN w.ok /\ IsWithAlphabet(d, x, w.d) /\ Alphabet(w.d) = x
                                  /\ Class(w.d) = Class(d) /\ Compressed(w.d) = Compressed(d)
        ELSE ~w.ok
  /\ \A x \in 0..3 : LET w == r.wc[x+1] IN
        IF CanClass(d, x) THEN w.ok /\ w.d = WithClass(d, x) /\ Class(w.d) = x
                               /\ Alphabet(w.d) = Alphabet(d) /\ Compressed(w.d) = Compressed(d)
        ELSE ~w.ok

\* times out of range are not kept by the wire
Unranged(t) == [t EXCEPT !.scts = IF InRange(@) \/ @ = <<>> THEN @ ELSE AnyTime]
TmRec(a, r) ==
  LET m == Marshal(a.t) IN
  /\ Same(m, r.ok, r.b)
  /\ (m.ok /\ ValidTPDU(a.t)) => r.uok /\ r.t = WireTPDU(a.t)
TmoRec(a, r) == Same(Marshal(a.t), r.ok, r.b)
TuRec(a, r) ==
  LET p == Unmarshal(a.dir, a.b)
  IN CASE p.st = "ok" -> r.ok /\ TPDUMatches(p.t, r.t)
       [] p.st = "err" -> ~r.ok
       [] p.st = "may" -> r.ok => TPDUMatches(p.t, r.t)

\* the counts after, where there are counters
After(before, n, got) == IF before = <<>> THEN got = <<>> ELSE got = <<before[1] + n>>
SegRec(a, r) ==
  LET c == CheckSegments(a.t, a.msg, a.is16, a.mr, a.cr, r.pdus)
  IN c.ok /\ After(a.mr, c.n, r.mr) /\ After(a.cr, IF c.multi THEN 1 ELSE 0, r.cr)
BlkRec(a, r) == LET b == BlockSize(a.t, a.t.udh) IN r.bs = b \/ (b <= 0 /\ r.bs <= 0)
EudRec(a, r) ==
  LET c == Choose(a.cps, a.lock, a.shift)
  IN r.alpha = c.alpha /\ r.udh = c.ies /\ IsUDOf(r.ud, a.cps, c)
HistRec(a, r) ==
  HistoryOk((IF a.top THEN <<[o |-> "type", n |-> SUBMIT]>> ELSE <<>>) \o a.opts, [i \in 1..Len(a.calls) |->
     [opts |-> a.calls[i].opts, msg |-> a.calls[i].msg, cps |-> a.calls[i].cps,
      err |-> r.calls[i].err, pdus |-> r.calls[i].pdus, mr |-> r.calls[i].mr, cr |-> r.calls[i].cr]],
     a.mr, a.cr)
\* every TPDU produced is well formed
RoomOk(p) == LET u == MarshalUD(Alphabet(p.dcs), p.udh, p.ud) IN u.ok /\ Len(u.b) - 1 <= UDRoom(p)
WireOk(p, w) ==
  LET m == Marshal(p)
      want == WireTPDU(p)
  IN /\ m.ok /\ w.ok /\ w.b = m.b /\ RoomOk(p)
     /\ HasUDHI(p.fo) = (p.udh # <<>>)
     /\ w.uok /\ TPDUMatches([want EXCEPT !.scts = IF @ = <<>> /\ TypeOf(p.fo, p.dir) = DELIVER
                                                   THEN AnyTime ELSE @], w.t)
WfRec(a, r) == Len(r.wire) = Len(r.pdus) /\ \A i \in 1..Len(r.pdus) : WireOk(r.pdus[i], r.wire[i])

IcmRec(a, r) == r.ok = IsComplete(a.segs)
EditRec(a, r) == EditsOk(a.t, a.edits, r.snaps)
BuildRec(a, r) == BuildOk((IF a.base >= 0 THEN <<[e |-> "type", n |-> a.base]>> ELSE <<>>) \o a.edits, r)

PdumRec(a, r) ==
  LET m == MarshalSMSC(a.ad) IN
  /\ Same(IF m.ok THEN Good(m.b \o a.b) ELSE Fail, r.ok, r.b)
  /\ r.hok = r.ok /\ (r.ok => r.h = r.b)
  /\ m.ok => /\ r.uok /\ r.tpdu = a.b
             /\ r.ad = IF a.ad.a = <<>> THEN NoAddr ELSE a.ad
PduuRec(a, r) ==
  LET p == ParseSMSC(a.b)
  IN IF p.st = "ok" THEN r.ok /\ r.ad = [toa |-> p.toa, a |-> p.a] /\ r.tpdu = Rest(a.b, p.n)
     ELSE ~r.ok
PduhRec(a, r) == LET h == HexDecode(a.s) IN IF h.ok THEN PduuRec([b |-> h.b], r) ELSE ~r.ok

\* calls of concurrent clients: each as if alone
ConcRec(a, r, Alone(_)) ==
  /\ Len(r.clients) = Len(a.clients)
  /\ \A c \in 1..Len(a.clients) :
       /\ Len(r.clients[c]) = Len(a.clients[c])
       /\ \A i \in 1..Len(a.clients[c]) :
            Alone([k |-> a.clients[c][i].k, a |-> a.clients[c][i].a,
                   x |-> r.clients[c][i].x, r |-> r.clients[c][i].r])

\* reads into one variable: each as if it were new, and what was read before
\* stays as it was
ReuseRec(a, r, Alone(_)) ==
  /\ Len(r.calls) = Len(a.calls)
  /\ \A i \in 1..Len(a.calls) :
       Alone([k |-> a.calls[i].k, a |-> a.calls[i].a, x |-> r.calls[i].x, r |-> r.calls[i].r])

RECURSIVE Conforms(_)
Conforms(rec) ==
  /\ rec.x = ""
  /\ LET a == rec.a
         r == rec.r
     IN CASE rec.k = "pack" -> PackRec(a, r) /\ PackTrip(a, r)
          [] rec.k = "unpack" -> UnpackRec(a, r)
          [] rec.k = "genc" -> GTripRec(a, r)
          [] rec.k = "gdec" -> GDecRec(a, r)
          [] rec.k = "ctab" -> CTabRec(a, r)
          [] rec.k = "uenc" -> UTripRec(a, r)
          [] rec.k = "udec" -> UDecRec(a, r)
          [] rec.k = "dec" -> DecRec(a, r)
          [] rec.k = "split" -> SplitRec(a, r)
          [] rec.k = "dud" -> DUDRec(a, r)
          [] rec.k = "udhm" -> UdhmRec(a, r)
          [] rec.k = "udhu" -> UdhuRec(a, r)
          [] rec.k = "ies" -> IesRec(a, r)
          [] rec.k = "addrm" -> AddrmRec(a, r)
          [] rec.k = "addru" -> AddruRec(a, r)
          [] rec.k = "num" -> NumRec(a, r)
          [] rec.k = "semie" -> SemieRec(a, r)
          [] rec.k = "semid" -> SemidRec(a, r)
          [] rec.k = "bcd" -> BcdRec(a, r)
          [] rec.k = "bcdd" -> BcddRec(a, r)
          [] rec.k = "tsm" -> TsmRec(a, r)
          [] rec.k = "tsu" -> TsuRec(a, r)
          [] rec.k = "vpm" -> VpmRec(a, r)
          [] rec.k = "vpu" -> VpuRec(a, r)
          [] rec.k = "vpe" -> VpeRec(a, r)
          [] rec.k = "dcs" -> DcsRec(a, r)
          [] rec.k = "tm" -> TmRec(a, r)
          [] rec.k = "tmo" -> TmoRec(a, r)
          [] rec.k = "tu" -> TuRec(a, r)
          [] rec.k = "names" -> NamesRec(a, r)
          [] rec.k = "err" -> ErrRec(a, r)
          [] rec.k = "iei" -> IeiRec(a, r)
          [] rec.k = "str" -> StrRec(a, r)
          [] rec.k = "rej" -> RejRec(a, r)
          [] rec.k = "rejm" -> RejmRec(a, r)
          [] rec.k = "rejp" -> RejpRec(a, r)
          [] rec.k = "seg" -> SegRec(a, r)
          [] rec.k = "blk" -> BlkRec(a, r)
          [] rec.k = "eud" -> EudRec(a, r)
          [] rec.k = "hist" -> HistRec(a, r)
          [] rec.k = "wf" -> WfRec(a, r)
          [] rec.k = "e2e" -> E2ERec(a, r)
          [] rec.k = "iso" -> IsoRec(a, r)
          [] rec.k = "conc" -> ConcRec(a, r, Conforms)
          [] rec.k = "reuse" -> ReuseRec(a, r, Conforms)
          [] rec.k = "shared" -> SharedRec(a, r)
          [] rec.k = "icm" -> IcmRec(a, r)
          [] rec.k = "edit" -> EditRec(a, r)
          [] rec.k = "build" -> BuildRec(a, r)
          [] rec.k = "pdum" -> PdumRec(a, r)
          [] rec.k = "pduu" -> PduuRec(a, r)
          [] rec.k = "pduh" -> PduhRec(a, r)
          [] rec.k = "sdecode" -> SdecodeRec(a, r)
          [] rec.k = "sdeliver" -> DeliverRec(a, r)
          [] rec.k = "ssubmit" -> SubmitRec(a, r)
          [] rec.k = "scount" -> CounterRec(a, r)
          [] rec.k = "chars" -> CharsRec(r)
=============================================================================

-------------------------------- MODULE Flags --------------------------------
(* A TPDU under edits: the state machine of its fields and indicators.        *)
EXTENDS Encoder

\* state: the TPDU, and whether its UD and UDH are present (not nil)
\* an edit e: e.e names it; e.abs: the value set is absent
NewTPDU == [ZeroTPDU EXCEPT !.oa = [toa |-> 128, a |-> <<>>], !.da = [toa |-> 128, a |-> <<>>],
                            !.ra = [toa |-> 128, a |-> <<>>]]
ValidType(n) == n \in 0..5
Edit(t, e) ==
  CASE e.e = "type" -> IF ValidType(e.n) THEN SetType(t, e.n) ELSE t
    [] e.e = "mti" -> [t EXCEPT !.fo = SetField(@, 0, 2, e.n)]
    [] e.e = "vpf" -> [t EXCEPT !.fo = SetField(@, 3, 2, e.n)]
    [] e.e = "dir" -> [t EXCEPT !.dir = e.n]
    [] e.e = "dcs" -> SetDCS(t, e.n)
    [] e.e = "pid" -> [t EXCEPT !.pid = e.n, !.pi = SetField(@, 0, 1, 1)]
    [] e.e = "vp" -> [t EXCEPT !.vp = e.vp, !.fo = SetField(@, 3, 2, e.vp.f)]
    [] e.e = "ud" -> IF e.abs THEN [t EXCEPT !.ud = <<>>, !.pi = SetField(@, 2, 1, 0)]
                     ELSE [t EXCEPT !.ud = e.b, !.pi = SetField(@, 2, 1, 1)]
    [] e.e = "udh" -> IF e.abs THEN [t EXCEPT !.udh = <<>>, !.fo = SetField(@, UdhiBit, 1, 0)]
                      ELSE SetUDH(t, e.ies)
    [] e.e = "oa" -> [t EXCEPT !.oa = e.ad]
    [] e.e = "da" -> [t EXCEPT !.da = e.ad]
Refused(e) == e.e = "type" /\ ~ValidType(e.n)

\* what the accessors say of a TPDU
Flag(x, k) == Bit(x, k) = 1
Accessors(t) ==
  LET ci == ConcatInfo(t.udh) IN
  [type |-> TypeOf(t.fo, t.dir), mti |-> t.fo % 4, vpf |-> VPF(t.fo), udhi |-> HasUDHI(t.fo),
   mms |-> Flag(t.fo, 2), rd |-> Flag(t.fo, 2), lp |-> Flag(t.fo, 3), sri |-> Flag(t.fo, 5),
   srr |-> Flag(t.fo, 5), srq |-> Flag(t.fo, 5), rp |-> Flag(t.fo, 7),
   pipid |-> PiPID(t.pi), pidcs |-> PiDCS(t.pi), piudl |-> PiUDL(t.pi),
   udhl |-> HeaderLen(t.udh), alpha |-> Alphabet(t.dcs), alphaok |-> AlphabetOk(t.dcs),
   concat |-> ci.ok, total |-> ci.total, seqno |-> ci.seqno, ref |-> ci.ref]

\* snaps[i]: [err, t, acc] after edit i
EditsOk(t0, edits, snaps) ==
  LET step(acc, i) ==
        IF ~acc.ok THEN acc
        ELSE LET t == Edit(acc.t, edits[i])
             IN [ok |-> /\ snaps[i].err = Refused(edits[i])
                        /\ snaps[i].t = t /\ snaps[i].acc = Accessors(t),
                 t |-> t]
  IN /\ Len(snaps) = Len(edits)
     /\ FoldLeft(step, [ok |-> TRUE, t |-> t0], [i \in 1..Len(edits) |-> i]).ok
\* construction with options: refused as a whole if one is
BuildOk(edits, r) ==
  IF \E i \in 1..Len(edits) : Refused(edits[i]) THEN r.err
  ELSE LET t == FoldLeft(Edit, NewTPDU, edits)
       IN ~r.err /\ r.t = t /\ r.acc = Accessors(t)

\* the setters of a validity period replace all of it
SetAbsoluteVP(t) == [NoVP EXCEPT !.f = ABSOLUTE, !.t = t]
SetRelativeVP(s, ns) == [NoVP EXCEPT !.f = RELATIVE, !.s = s, !.ns = ns]
SetEnhancedVP(s, ns, efi) == [NoVP EXCEPT !.f = ENHANCED, !.s = s, !.ns = ns, !.efi = efi]
VPEdit(e) == CASE e.e = "abs" -> SetAbsoluteVP(e.t)
               [] e.e = "rel" -> SetRelativeVP(e.s, e.ns)
               [] e.e = "enh" -> SetEnhancedVP(e.s, e.ns, e.efi)
=============================================================================

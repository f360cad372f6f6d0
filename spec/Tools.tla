-------------------------------- MODULE Tools --------------------------------
(* The command line tools: what they print for what they are given.           *)
(* Output is a sequence of characters, or of octets where it holds text.      *)
EXTENDS Delivery, TLC

C == INSTANCE Collector

\* --- printing -------------------------------------------------------------------
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == FoldLeft(LAMBDA f, i : f @@ (SubSeq(Printable, i, i) :> 31 + i), " " :> 32, [i \in 1..94 |-> i + 1])
\* all that is printed as it is
Texts == <<
  "0x", "true", "false", ": ", "Deliver", "Submit", "Command", "SMS-DELIVER", "SMS-SUBMIT",
  "SMS-COMMAND", "SMS-STATUS-REPORT", "SMS-DELIVER-REPORT", "SMS-SUBMIT-REPORT", " 7bit",
  " 8bit", " UCS-2", "-", " ", ":", "+", "h", "m", "s", "Not Present", "Absolute", "Relative",
  "Enhanced", "Relative Seconds", "Relative HHMMSS", "Unknown", "Absolute - ", "Relative - ",
  "Enhanced ", " - ", "0", "PID", "DCS", "UDL", "|", "ID: ", "  Data: [", "]", "TP-UDH",
  "TP-CD", "TP-UD", "TP-PID", "TP-DCS", "TP-MTI", "TPDU", "TP-MMS", "TP-LP", "TP-RP",
  "TP-UDHI", "TP-SRI", "TP-OA", "TP-SCTS", "TP-RD", "TP-VPF", "TP-SRR", "TP-MR", "TP-DA",
  "TP-VP", "TP-CT", "TP-MN", "TP-SCTS: 0001-01-01 00:00:00 +0000", "TP-CDL", "TP-SRQ", "TP-RA",
  "TP-DT", "TP-ST", "TP-PI", "TP-FCS", "SMSC", "LF", "CR",
  "FF", "SP", "ESC", "SmsDeliver", "SmsDeliverReport", "SmsSubmitReport", "SmsSubmit", "SmsStatusReport", "SmsCommand"
>>
TextOfAll == FoldLeft(LAMBDA f, s : f @@ (s :> (<<>> \o [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])), "" :> <<>>, Texts)
T(s) == TextOfAll[s]
NL == <<10>>
SP(n) == [i \in 1..n |-> 32]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
PadDec(n, w) == LET d == Dec(n) IN [i \in 1..Max2(0, w - Len(d)) |-> 48] \o d
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexN(_, _)
HexN(n, w) == IF w = 0 THEN <<>> ELSE HexN(n \div 16, w - 1) \o <<HexDigit(n % 16)>>
Ox(n) == T("0x") \o HexN(n, 2)
Bool(b) == IF b THEN T("true") ELSE T("false")
\* characters of a hex string
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87
             ELSE IF c \in 65..70 THEN c - 55 ELSE -1
HexDecode(s) == IF Len(s) % 2 = 1 \/ \E i \in 1..Len(s) : HexVal(s[i]) = -1 THEN Fail
                ELSE Good([k \in 1..(Len(s) \div 2) |-> HexVal(s[2*k-1]) * 16 + HexVal(s[2*k])])
Join(parts, sep) == FlattenSeq([i \in 1..Len(parts) |-> IF i = 1 THEN parts[i] ELSE sep \o parts[i]])

\* --- smsdecode ---------------------------------------------------------------------
Line(name, value) == T(name) \o T(": ") \o value \o NL
MTIName(m) == IF m = 0 THEN "Deliver" ELSE IF m = 1 THEN "Submit" ELSE "Command"
TypeName(ty) == CASE ty = DELIVER -> "SMS-DELIVER"
                  [] ty = SUBMIT -> "SMS-SUBMIT"
                  [] ty = COMMAND -> "SMS-COMMAND"
                  [] ty = STATUSREPORT -> "SMS-STATUS-REPORT"
                  [] ty = DELIVERREPORT -> "SMS-DELIVER-REPORT"
                  [] OTHER -> "SMS-SUBMIT-REPORT"
DcsText(d) == Ox(d) \o (IF ~AlphabetOk(d) THEN <<>>
                        ELSE CASE Alphabet(d) = A7 -> T(" 7bit") [] Alphabet(d) = A8 -> T(" 8bit")
                               [] OTHER -> T(" UCS-2"))
TimeText(t) ==
  PadDec(t[1], 4) \o T("-") \o PadDec(t[2], 2) \o T("-") \o PadDec(t[3], 2) \o T(" ")
  \o PadDec(t[4], 2) \o T(":") \o PadDec(t[5], 2) \o T(":") \o PadDec(t[6], 2) \o T(" ")
  \o (IF t[7] < 0 THEN T("-") ELSE T("+"))
  \o PadDec(Abs(t[7]) \div 3600, 2) \o PadDec((Abs(t[7]) \div 60) % 60, 2)
Period(s) ==
  (IF s >= 3600 THEN Dec(s \div 3600) \o T("h") ELSE <<>>)
  \o (IF s >= 60 THEN Dec((s \div 60) % 60) \o T("m") ELSE <<>>)
  \o Dec(s % 60) \o T("s")
VPFName(f) == CASE f = NOTPRESENT -> "Not Present" [] f = ABSOLUTE -> "Absolute"
                [] f = RELATIVE -> "Relative" [] OTHER -> "Enhanced"
EFIName(e) == CASE e = 0 -> "Not Present" [] e = 1 -> "Relative" [] e = 2 -> "Relative Seconds"
                [] e = 3 -> "Relative HHMMSS" [] OTHER -> "Unknown"
VPText(vp) == CASE vp.f = NOTPRESENT -> T("Not Present")
                [] vp.f = ABSOLUTE -> T("Absolute - ") \o TimeText(vp.t)
                [] vp.f = RELATIVE -> T("Relative - ") \o Period(vp.s)
                [] OTHER -> T("Enhanced ") \o T(EFIName(vp.efi % 8)) \o T(" - ") \o Period(vp.s)
PIText(pi) ==
  IF pi = 0 THEN T("0")
  ELSE Join((IF PiPID(pi) THEN <<T("PID")>> ELSE <<>>) \o (IF PiDCS(pi) THEN <<T("DCS")>> ELSE <<>>)
            \o (IF PiUDL(pi) THEN <<T("UDL")>> ELSE <<>>), T("|"))
\* 16 octets a line: offset, hex, characters
DumpLine(b, k) ==
  LET n == Min2(16, Len(b) - 16 * k)
      at(i) == b[16 * k + i]
  IN HexN(16 * k, 8) \o SP(2)
     \o FlattenSeq([i \in 1..16 |-> (IF i <= n THEN HexN(at(i), 2) ELSE SP(2))
                                    \o (IF i \in {8, 16} THEN SP(2) ELSE SP(1))])
     \o T("|") \o [i \in 1..n |-> IF at(i) \in 32..126 THEN at(i) ELSE 46] \o T("|")
Dump(b) == [k \in 1..((Len(b) + 15) \div 16) |-> DumpLine(b, k - 1)]
IEText(e) == T("ID: ") \o Dec(e.id) \o T("  Data: [") \o Join([i \in 1..Len(e.d) |-> Dec(e.d[i])], T(" ")) \o T("]")
\* the lines of a field
Block(name, ls) == Line(name, IF ls = <<>> THEN <<>> ELSE Join(ls, NL \o SP(7)))
UDHText(t) == IF t.udh = <<>> THEN <<>> ELSE Block("TP-UDH", [i \in 1..Len(t.udh) |-> IEText(t.udh[i])])
\* command data end with an empty line
CDText(t) == LET d == Dump(t.ud) IN Block("TP-CD", IF d = <<>> THEN d ELSE Append(d, <<>>))
UDText(t) == Block("TP-UD", Dump(t.ud))
Indicated(t) == (IF PiPID(t.pi) THEN Line("TP-PID", Ox(t.pid)) ELSE <<>>)
                \o (IF PiDCS(t.pi) THEN Line("TP-DCS", DcsText(t.dcs)) ELSE <<>>)
FlagLine(name, t, k) == Line(name, Bool(Bit(t.fo, k) = 1))
\* extra: a command is shown with the unset time it does not have
Shown(t, extra) ==
  LET ty == TypeOf(t.fo, t.dir)
      mti == Line("TP-MTI", Ox(t.fo % 4) \o SP(1) \o T(MTIName(t.fo % 4)))
      fl(name, k) == FlagLine(name, t, k)
      ending == UDHText(t) \o UDText(t)
  IN Line("TPDU", T(TypeName(ty))) \o mti \o
     CASE ty = DELIVER ->
            fl("TP-MMS", 2) \o fl("TP-LP", 3) \o fl("TP-RP", 7) \o fl("TP-UDHI", 6) \o fl("TP-SRI", 5)
            \o Line("TP-OA", Number(t.oa)) \o Line("TP-PID", Ox(t.pid)) \o Line("TP-DCS", DcsText(t.dcs))
            \o Line("TP-SCTS", TimeText(t.scts)) \o ending
       [] ty = SUBMIT ->
            fl("TP-RD", 2) \o Line("TP-VPF", Ox(VPF(t.fo)) \o SP(1) \o T(VPFName(VPF(t.fo))))
            \o fl("TP-RP", 7) \o fl("TP-UDHI", 6) \o fl("TP-SRR", 5)
            \o Line("TP-MR", Dec(t.mr)) \o Line("TP-DA", Number(t.da)) \o Line("TP-PID", Ox(t.pid))
            \o Line("TP-DCS", DcsText(t.dcs)) \o Line("TP-VP", VPText(t.vp)) \o ending
       [] ty = COMMAND ->
            fl("TP-UDHI", 6) \o fl("TP-SRR", 5) \o Line("TP-MR", Dec(t.mr)) \o Line("TP-PID", Ox(t.pid))
            \o Line("TP-CT", Ox(t.ct)) \o Line("TP-MN", Dec(t.mn)) \o Line("TP-DA", Number(t.da))
            \o (IF extra THEN T("TP-SCTS: 0001-01-01 00:00:00 +0000") \o NL ELSE <<>>)
            \o Line("TP-CDL", Dec(Len(t.ud) + HeaderSize(t.udh))) \o UDHText(t) \o CDText(t)
       [] ty = STATUSREPORT ->
            fl("TP-UDHI", 6) \o fl("TP-MMS", 2) \o fl("TP-LP", 3) \o fl("TP-SRQ", 5)
            \o Line("TP-MR", Dec(t.mr)) \o Line("TP-RA", Number(t.ra)) \o Line("TP-SCTS", TimeText(t.scts))
            \o Line("TP-DT", TimeText(t.dt)) \o Line("TP-ST", Ox(t.st)) \o Line("TP-PI", PIText(t.pi))
            \o Indicated(t) \o ending
       [] ty = DELIVERREPORT ->
            fl("TP-UDHI", 6) \o Line("TP-FCS", Ox(t.fcs)) \o Line("TP-PI", PIText(t.pi)) \o Indicated(t) \o ending
       [] OTHER ->
            fl("TP-UDHI", 6) \o Line("TP-FCS", Ox(t.fcs)) \o Line("TP-PI", PIText(t.pi))
            \o Line("TP-SCTS", TimeText(t.scts)) \o Indicated(t) \o ending

\* blanks at the ends of lines, and blank lines, do not matter
Squeezed(s) ==
  LET step(acc, c) ==         \* o: what is kept, sp: blanks held back
        IF c = 32 THEN [acc EXCEPT !.sp = @ + 1]
        ELSE IF c = 10 THEN [o |-> IF acc.o = <<>> \/ acc.o[Len(acc.o)] = 10 THEN acc.o ELSE Append(acc.o, 10), sp |-> 0]
        ELSE [o |-> acc.o \o SP(acc.sp) \o <<c>>, sp |-> 0]
  IN FoldLeft(step, [o |-> <<>>, sp |-> 0], s).o

\* a: [s, p, o, extra]: the characters of the argument, the flags, and how many more
\* arguments there are than the one it takes; r: [exit, out, err]: whether anything was
\* reported as an error
SdecodeRec(a, r) ==
  LET h == HexDecode(a.s)
      f == IF h.ok THEN IF a.p THEN ParseSMSC(h.b) ELSE [AddrErr EXCEPT !.st = "ok"] ELSE AddrErr
      p == IF f.st = "ok" THEN Unmarshal(IF a.o THEN 1 ELSE 0, Rest(h.b, f.n)) ELSE TErr
      failed == r.exit # 0 /\ r.out = <<>> /\ r.err
  IN CASE p.st = "err" \/ a.extra # 0 -> failed
       [] p.st = "ok" -> /\ r.exit = 0 /\ ~r.err
                         /\ LET want(extra) == (IF a.p THEN Line("SMSC", Number([toa |-> f.toa, a |-> f.a])) ELSE <<>>)
                                               \o Shown(p.t, extra)
                            IN IF r.out = want(TRUE) THEN TRUE
                               ELSE LET s == Squeezed(r.out) IN s = Squeezed(want(TRUE)) \/ s = Squeezed(want(FALSE))
       [] OTHER -> TRUE

\* --- smsdeliver ----------------------------------------------------------------------
\* a: [args, p]: the characters given, and whether they are frames; r: [exit, out, left,
\* err]: octets printed before, and number of, incomplete messages, and whether anything
\* was reported as an error
DeliverOut(a) ==
  LET n == Len(a.args)
      \* "stop": not the octets of what is expected, which ends it all
      Got(s) == LET h == HexDecode(s)
                    f == IF h.ok /\ a.p THEN ParseSMSC(h.b) ELSE [AddrErr EXCEPT !.st = "ok"]
                IN IF ~h.ok \/ f.st = "err" THEN [TErr EXCEPT !.st = "stop"]
                   ELSE Unmarshal(0, Rest(h.b, f.n))
      got == [i \in 1..n |-> Got(a.args[i])]
      step(acc, i) ==
        IF ~acc.ok \/ acc.stop THEN acc
        ELSE IF got[i].st = "stop" THEN [acc EXCEPT !.stop = TRUE, !.err = TRUE]
        ELSE IF got[i].st = "err" THEN [acc EXCEPT !.err = TRUE]
        ELSE IF got[i].st # "ok" THEN [acc EXCEPT !.ok = FALSE]
        ELSE LET t == got[i].t
                 c == CHOOSE s \in C!CollectSteps(acc.st, [id |-> i, ty |-> TypeOf(t.fo, t.dir), toa |-> t.oa.toa,
                                                           addr |-> t.oa.a, udh |-> t.udh], 0, 0) : TRUE
             IN IF c.res.ids = <<>> THEN [acc EXCEPT !.st = c.st, !.err = @ \/ c.res.err # ""]
                ELSE LET ts == [j \in 1..Len(c.res.ids) |-> got[c.res.ids[j]].t]
                         d == Decode([j \in 1..Len(ts) |-> [dcs |-> ts[j].dcs, udh |-> ts[j].udh, ud |-> ts[j].ud]],
                                     ALLNLI, ALLNLI)
                     IN CASE d.st = "ok" -> [acc EXCEPT !.st = c.st, !.out = @ \o Utf8(Number(ts[1].oa)) \o T(": ") \o d.b \o NL]
                          [] d.st = "err" -> [acc EXCEPT !.st = c.st, !.err = TRUE]
                          [] OTHER -> [acc EXCEPT !.ok = FALSE]
  IN FoldLeft(step, [ok |-> TRUE, stop |-> n = 0, err |-> n = 0, st |-> C!Start, out |-> <<>>], [i \in 1..n |-> i])
DeliverRec(a, r) ==
  LET res == DeliverOut(a)
  IN \* ok: all of them can be read in one way only
     res.ok => /\ (r.exit # 0) = res.stop /\ r.out = res.out /\ r.err = res.err
               /\ r.left = IF res.stop THEN 0 ELSE Cardinality(res.st.pool)

\* --- smssubmit ---------------------------------------------------------------------
\* a: [num, msg, cps, nli]; r: [exit, labels, hex, err]: the lines of hex, with the
\* numbers in the lines before, and whether anything was reported as an error
ToolCfg(opts, nli) == Config(ZeroCfg, <<[o |-> "type", n |-> SUBMIT]>> \o opts \o
                       (IF nli = 0 THEN <<>> ELSE <<[o |-> "charset", nli |-> <<nli>>]>>))
SubmitRec(a, r) ==
  LET cfg == ToolCfg(<<[o |-> "to", num |-> a.num]>>, a.nli)
      n == Len(r.hex)
      got == [i \in 1..n |-> LET h == HexDecode(r.hex[i]) IN IF h.ok THEN Unmarshal(1, h.b) ELSE TErr]
      c == CheckEncode(cfg, a.msg, a.cps, 0, 0,
             [err |-> IF n = 0 THEN "toolong" ELSE "", pdus |-> [i \in 1..n |-> got[i].t]])
  IN IF a.num = <<>> \/ a.cps = <<>> THEN n = 0 /\ r.exit # 0
     ELSE IF ~MarshalAddress(cfg.t.da).ok THEN n = 0 /\ r.err
     ELSE /\ \A i \in 1..n : got[i].st = "ok"
          /\ c.ok
          /\ n = 0 => r.err
          /\ n > 0 => ~r.err
          /\ r.labels = IF n = 1 THEN <<0>> ELSE [i \in 1..n |-> i]

\* --- smscounter --------------------------------------------------------------------
\* a: [msg, cps, nli]; r: [exit, enc, n, total, last, per, left]
CountOf(a) ==
  LET cfg == ToolCfg(<<>>, a.nli)
      p == Plan(cfg, a.msg, a.cps)
      n == Parts(p, FALSE)
      al == Alphabet(p.t.dcs)
      unit == IF al = AUCS2 THEN 2 ELSE 1
      bs == IF n = 1 THEN BlockSize(p.t, p.t.udh) ELSE BlockSize(p.t, Append(p.t.udh, ConcatIE(FALSE, 0, 0, 0)))
      cuts == Cuts(p.m, al, 0, bs)
      last == IF n = 1 THEN Len(p.m) ELSE Len(p.m) - cuts[n-1]
      per == bs \div unit
  IN IF a.cps = <<>> \/ n = 0 THEN [ok |-> FALSE, enc |-> "", n |-> 0, per |-> 0, last |-> 0]
     ELSE [ok |-> TRUE, enc |-> IF al = AUCS2 THEN "UCS-2" ELSE IF In(p.m, ESC) THEN "7BIT_EX" ELSE "7BIT",
           n |-> n, per |-> per, last |-> last \div unit]
CounterRec(a, r) ==
  LET c == CountOf(a)
  IN /\ (r.exit = 0) = c.ok /\ r.enc = c.enc
     /\ c.ok => /\ r.n = c.n /\ r.per = c.per /\ r.last = c.last
                /\ r.total = (c.n - 1) * c.per + c.last /\ r.left = c.per - c.last

\* --- charsets ------------------------------------------------------------------------
Cell(v) == CASE v = -1 -> <<>>
             [] v = 10 -> T("LF")
             [] v = 13 -> T("CR")
             [] v = 12 -> T("FF")
             [] v = 32 -> T("SP")
             [] v >= 1024 /\ v # 8364 -> HexN(v, 4)
             [] OTHER -> <<v>>
Languages == <<"Turkish", "Spanish", "Portuguese", "Bengali", "Gujarati", "Hindi", "Kannada", "Malayalam", "Oriya",
               "Punjabi", "Tamil", "Telugu", "Urdu">>
\* 0: the default; and one is spelt otherwise
IsLanguage(s, n) == n = 0 \/ s = Languages[n] \/ (n = 5 /\ s = "Gujaranti")
\* r.tables: [name, nli, shift, cells], the cells by septet without blanks
CharsRec(r) ==
  /\ Len(r.tables) = 28
  /\ \A i \in 1..28 :
       LET t == r.tables[i]
           n == (i - 1) \div 2
           tab == IF i % 2 = 0 THEN Shift(n) ELSE Locking(n)
       IN /\ IsLanguage(t.name, n) /\ t.nli = n /\ t.shift = (i % 2 = 0) /\ Len(t.cells) = 128
          /\ \A s \in 0..127 : t.cells[s+1] = Cell(tab[s+1]) \/ (s = ESC /\ t.cells[s+1] = T("ESC"))
=============================================================================

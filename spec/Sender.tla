-------------------------------- MODULE Sender --------------------------------
(* Encoding as a function: what CheckEncode admits, computed. The octets of     *)
(* each TPDU are what Marshal makes of it.                                      *)
EXTENDS Delivery

CutInto(msg, c) == [i \in 1..Len(c) |-> SubSeq(msg, IF i = 1 THEN 1 ELSE c[i-1] + 1, c[i])]
\* the TPDUs for a template t and the octets or septets msg; <<>> if there are none
SegmentsOf(t, msg, is16, mr, cr) ==
  IF msg = <<>> THEN <<>>
  ELSE IF Len(msg) <= BlockSize(t, t.udh) THEN <<[t EXCEPT !.ud = msg, !.mr = Counted(t, mr, 1)]>>
  ELSE LET bs == BlockSize(t, Append(t.udh, ConcatIE(is16, 0, 0, 0)))
           c == Cuts(msg, Alphabet(t.dcs), 0, bs)
           parts == CutInto(msg, c)
       IN IF bs < 1 \/ ~CutsOk(c) \/ Len(c) > MAXSEGMENTS THEN <<>>
          ELSE [i \in 1..Len(c) |->
                 [t EXCEPT !.ud = parts[i], !.fo = SetField(@, UdhiBit, 1, 1), !.mr = Counted(t, mr, i),
                           !.udh = Append(@, ConcatIE(is16, IF cr = <<>> THEN 1 ELSE cr[1] + 1, Len(c), i))]]
\* a report has to say which of the optional fields it has
Indicated(p) ==
  IF TypeOf(p.fo, p.dir) \in {STATUSREPORT, DELIVERREPORT, SUBMITREPORT}
  THEN [p EXCEPT !.pi = SetField(SetField(@, 2, 1, 1), 1, 1, IF p.dcs # 0 THEN 1 ELSE Bit(@, 1))] ELSE p
\* [err, pdus, mr, cr] with the counts after
EncodeOf(cfg, msg, cps, is16, mr, cr) ==
  LET p == Plan(cfg, msg, cps)
      s == IF p.ok THEN SegmentsOf(p.t, p.m, is16, <<mr>>, <<cr>>) ELSE <<>>
  IN [err |-> IF ~p.ok THEN "dcs" ELSE IF s = <<>> /\ p.m # <<>> THEN "toolong" ELSE "",
      pdus |-> [i \in 1..Len(s) |-> Indicated(s[i])], mr |-> mr + Len(s), cr |-> cr + (IF Len(s) > 1 THEN 1 ELSE 0)]
\* a history of calls on one Encoder: [opts, msg, cps] each
HistoryOf(opts, calls, mr0, cr0) ==
  LET base == Config(ZeroCfg, opts)
      step(acc, c) ==
        LET e == EncodeOf(Config(base, c.opts), c.msg, c.cps, FALSE, acc.mr, acc.cr)
        IN [mr |-> e.mr, cr |-> e.cr,
            calls |-> Append(acc.calls, [opts |-> c.opts, msg |-> c.msg, cps |-> c.cps,
                                         err |-> e.err, pdus |-> e.pdus, mr |-> e.mr, cr |-> e.cr])]
  IN FoldLeft(step, [mr |-> mr0, cr |-> cr0, calls |-> <<>>], calls).calls
=============================================================================

------------------------------- MODULE Encoder -------------------------------
(* The Encoder: its options, and its counters over a history of calls.        *)
EXTENDS Text

\* configuration: template, permitted locking and shift tables in order
ZeroCfg == [t |-> ZeroTPDU, lock |-> <<>>, shift |-> <<>>]
SetUDH(t, ies) == [t EXCEPT !.udh = ies, !.fo = SetField(@, UdhiBit, 1, 1), !.pi = SetField(@, 2, 1, 1)]
SetDCS(t, d) == [t EXCEPT !.dcs = d, !.pi = SetField(@, 1, 1, 1)]
SetType(t, ty) == [t EXCEPT !.dir = ty % 2, !.fo = SetField(@, 0, 2, ty \div 2)]
NewNumber(num) == SetNumber([toa |-> 128, a |-> <<>>], num)
\* an option o: a record with the field o naming it
Apply(cfg, o) ==
  CASE o.o = "template" -> [cfg EXCEPT !.t = o.t]
    [] o.o = "type" -> [cfg EXCEPT !.t = SetType(@, o.n)]
    [] o.o = "dcs" -> [cfg EXCEPT !.t = SetDCS(@, o.n)]
    [] o.o = "to" -> [cfg EXCEPT !.t = [@ EXCEPT !.da = NewNumber(o.num)]]
    [] o.o = "from" -> [cfg EXCEPT !.t = [@ EXCEPT !.oa = NewNumber(o.num)]]
    [] o.o = "udh" -> [cfg EXCEPT !.t = SetUDH(@, o.ies)]
    [] o.o = "all" -> [cfg EXCEPT !.lock = ALLNLI, !.shift = ALLNLI]
    [] o.o = "charset" -> [cfg EXCEPT !.lock = @ \o o.nli, !.shift = @ \o o.nli]
    [] o.o = "locking" -> [cfg EXCEPT !.lock = @ \o o.nli]
    [] o.o = "shift" -> [cfg EXCEPT !.shift = @ \o o.nli]
Config(cfg, opts) == FoldLeft(Apply, cfg, opts)

\* one call: msg are the octets given, cps the characters they contain as UTF-8;
\* res: [err, pdus].  Returns [ok, n, multi].
CheckEncode(cfg, msg, cps, mr, cr, res) ==
  LET a == Alphabet(cfg.t.dcs)
      Segs(t, m) ==
        LET c == CheckSegments(t, m, FALSE, <<mr>>, <<cr>>, res.pdus)
        IN IF ~c.ok THEN BadSegs
           ELSE IF m # <<>> /\ c.n = 0 THEN IF res.err = "toolong" THEN c ELSE BadSegs
           ELSE IF res.err = "" THEN c ELSE BadSegs
  IN IF AlphabetOk(cfg.t.dcs) /\ a # A7 THEN Segs(cfg.t, msg)
     ELSE LET c == Choose(cps, cfg.lock, cfg.shift)
              d == WithAlphabet(cfg.t.dcs, c.alpha)
              t1 == IF c.ies = <<>> THEN cfg.t ELSE SetUDH(cfg.t, cfg.t.udh \o c.ies)
          IN IF ~CanAlphabet(cfg.t.dcs, c.alpha)
             THEN IF res.err = "dcs" /\ res.pdus = <<>> THEN NoSegs ELSE BadSegs
             ELSE LET \* the reserved bit of the class group is free
                      ds == IF res.pdus # <<>> THEN {res.pdus[1].dcs} ELSE {d}
                      t2 == [t1 EXCEPT !.dcs = CHOOSE x \in ds : TRUE]
                      ud == FlattenSeq([i \in 1..Len(res.pdus) |-> res.pdus[i].ud])
                      \* any septets that encode the text will do
                      m  == IF res.pdus # <<>> THEN ud
                            ELSE IF c.alpha = A7 THEN GsmEncode(cps, c.l, c.s) ELSE Ucs2Encode(cps)
                  IN IF ~IsWithAlphabet(cfg.t.dcs, c.alpha, t2.dcs) THEN BadSegs
                     ELSE IF res.pdus # <<>> /\ ~IsUDOf(ud, cps, c) THEN BadSegs
                     ELSE Segs(t2, m)

\* a history of calls on one Encoder made with the options opts:
\* calls: [opts, msg, cps, err, pdus]; mr0, cr0: the counters before
HistoryOk(opts, calls, mr0, cr0) ==
  LET base == Config(ZeroCfg, opts)
      step(acc, c) ==
        IF ~acc.ok THEN acc
        ELSE LET r == CheckEncode(Config(base, c.opts), c.msg, c.cps, acc.mr, acc.cr, c)
             IN [ok |-> r.ok /\ c.mr = acc.mr + r.n /\ c.cr = acc.cr + (IF r.multi THEN 1 ELSE 0),
                 mr |-> acc.mr + r.n, cr |-> acc.cr + (IF r.multi THEN 1 ELSE 0)]
      res == FoldLeft(step, [ok |-> TRUE, mr |-> mr0, cr |-> cr0], calls)
  IN res.ok
=============================================================================

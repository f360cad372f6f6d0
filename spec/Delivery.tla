------------------------------- MODULE Delivery -------------------------------
(* A message from end to end: what is sent is what is received.               *)
EXTENDS Flags

\* --- what a sender makes of a message ---------------------------------------------
\* [ok, t, m]: the template and the octets or septets to segment, if it can
Raw(t) == AlphabetOk(t.dcs) /\ Alphabet(t.dcs) # A7
Plan(cfg, msg, cps) ==
  IF Raw(cfg.t) THEN [ok |-> TRUE, t |-> cfg.t, m |-> msg]
  ELSE LET c == Choose(cps, cfg.lock, cfg.shift)
           t1 == IF c.ies = <<>> THEN cfg.t ELSE SetUDH(cfg.t, cfg.t.udh \o c.ies)
       IN IF ~CanAlphabet(cfg.t.dcs, c.alpha) THEN [ok |-> FALSE, t |-> cfg.t, m |-> <<>>]
          ELSE [ok |-> TRUE, t |-> [t1 EXCEPT !.dcs = WithAlphabet(@, c.alpha)],
                m |-> IF c.alpha = A7 THEN GsmEncode(cps, c.l, c.s) ELSE Ucs2Encode(cps)]
\* how many TPDUs it takes: 0 if it cannot be sent
Parts(p, is16) ==
  IF ~p.ok THEN 0
  ELSE IF Len(p.m) <= BlockSize(p.t, p.t.udh) THEN 1
  ELSE LET bs == BlockSize(p.t, Append(p.t.udh, ConcatIE(is16, 0, 0, 0)))
           c  == Cuts(p.m, Alphabet(p.t.dcs), 0, bs)
       IN IF bs < 1 \/ ~CutsOk(c) \/ Len(c) > MAXSEGMENTS THEN 0 ELSE Len(c)
\* the text it stands for, as octets
TextOf(cfg, msg, cps) ==
  IF ~Raw(cfg.t) THEN Utf8(cps)
  ELSE IF Alphabet(cfg.t.dcs) = A8 THEN msg ELSE Utf8(Ucs2Decode(msg).b)

\* --- what is received -----------------------------------------------------------
\* n[m]: the number of TPDUs of each message; got[m]: the numbers of those that
\* have arrived since the message was last complete; want[m]: its text.
Arrive(got, m, q) == [got EXCEPT ![m] = @ \cup {q}]
Complete(got, n, m) == Cardinality(got[m]) = n[m]
\* what collecting the q-th TPDU of message m yields
FedOk(got, n, want, f) ==
  LET g == Arrive(got, f.m, f.q) IN
  /\ f.err = ""
  /\ IF Complete(g, n, f.m)
     THEN f.ids = [i \in 1..n[f.m] |-> <<f.m, i>>] /\ f.ok /\ f.b = want[f.m]
     ELSE f.ids = <<>>
Received(got, n, f) ==
  LET g == Arrive(got, f.m, f.q) IN IF Complete(g, n, f.m) THEN [g EXCEPT ![f.m] = {}] ELSE g

\* a: [senders, msgs, rounds], r: [errs, n, feed]
E2ERec(a, r) ==
  LET cfg(i) == Config(ZeroCfg, a.senders[a.msgs[i].s].opts \o a.msgs[i].opts)
      ms == 1..Len(a.msgs)
      want == [i \in ms |-> TextOf(cfg(i), a.msgs[i].msg, a.msgs[i].cps)]
      none == [i \in ms |-> {}]
      step(acc, f) ==
        IF ~acc.ok THEN acc
        ELSE [ok |-> FedOk(acc.got, r.n, want, f), got |-> Received(acc.got, r.n, f)]
      res == FoldLeft(step, [ok |-> TRUE, got |-> none], r.feed)
  IN /\ \A i \in ms : Parts(Plan(cfg(i), a.msgs[i].msg, a.msgs[i].cps), a.senders[a.msgs[i].s].wide) > 0
                        => r.errs[i] = "" /\ r.n[i] > 0
     \* what arrives is what was sent, and all of it
     /\ Len(r.feed) = a.rounds * SumSeq(r.n)
     /\ res.ok /\ res.got = none
=============================================================================

------------------------------- MODULE Segment -------------------------------
(* Splitting a message into TPDUs, and recognising a complete set.            *)
(* 3GPP TS 23.040 9.2.3.24.1 and 3.10.                                         *)
EXTENDS Tpdu, Gsm7, Ucs2

\* octets of user data a TPDU of each type has room for
UDRoom(t) ==
  LET ty == TypeOf(t.fo, t.dir) IN
  CASE ty \in {DELIVER, SUBMIT} -> 140
    [] ty = COMMAND -> 146
    [] ty = STATUSREPORT -> 131
    [] ty = SUBMITREPORT -> IF t.fcs = 0 THEN 152 ELSE 151
    [] ty = DELIVERREPORT -> IF t.fcs = 0 THEN 159 ELSE 158
    [] OTHER -> 0
\* what of that a header leaves: septets for the 7 bit alphabet, else octets.
\* Not positive if there is no room at all.
BlockSize(t, udh) ==
  LET a == Alphabet(t.dcs) IN
  IF a = A7 THEN (8 * UDRoom(t)) \div 7 - HeaderSeptets(HeaderSize(udh))
  ELSE LET b == UDRoom(t) - HeaderSize(udh) IN IF a = AUCS2 THEN b - (b % 2) ELSE b

\* --- where a message may be cut: not inside an escape sequence or a surrogate pair ---
\* do the first i elements end inside one?  (MC_Segment checks the escapes
\* against a parse from the start of the message)
RECURSIVE EscRun(_, _)
EscRun(msg, i) == IF i = 0 THEN 0 ELSE IF msg[i] # ESC THEN 0 ELSE 1 + EscRun(msg, i - 1)
UnitAt(msg, i) == msg[i] * 256 + msg[i+1]                  \* the unit in octets i, i+1
Mid(msg, a, i) ==
  IF a = A7 THEN i < Len(msg) /\ EscRun(msg, i) % 2 = 1
  ELSE IF a = AUCS2
  THEN i < Len(msg) /\ \/ i % 2 = 1
                       \/ i >= 2 /\ i + 2 <= Len(msg)
                          /\ IsHigh(UnitAt(msg, i-1)) /\ IsLow(UnitAt(msg, i+1))
  ELSE FALSE
\* an unpaired high surrogate ends in octet i
LoneHigh(msg, a, i) == a = AUCS2 /\ i >= 2 /\ IsHigh(UnitAt(msg, i-1))
HasLoneHigh(msg, a) ==
  a = AUCS2 /\ \E k \in 1..(Len(msg) \div 2) :
      /\ IsHigh(UnitAt(msg, 2*k-1))
      /\ 2*k + 2 > Len(msg) \/ ~IsLow(UnitAt(msg, 2*k+1))

\* the furthest cut after b, at most bs further, or b if there is none
Furthest(msg, a, b, bs) ==
  IF b + bs >= Len(msg) THEN Len(msg)
  ELSE LET c == {e \in Max2(b+1, b + bs - 3)..(b + bs) : ~Mid(msg, a, e)} IN IF c = {} THEN b ELSE Max(c)
\* the greedy cuts, or <<>> if some character does not fit a block
RECURSIVE Cuts(_, _, _, _)
Cuts(msg, a, b, bs) ==
  LET e == Furthest(msg, a, b, bs) IN
  IF bs < 1 \/ e = b THEN <<-1>>
  ELSE IF e = Len(msg) THEN <<e>>
  ELSE <<e>> \o Cuts(msg, a, e, bs)
CutsOk(c) == c # <<>> /\ c[Len(c)] # -1
MAXSEGMENTS == 255

\* are the ends e of the segments those of a greedy partition?
IsPartition(msg, a, bs, e) ==
  /\ Len(e) >= 1 /\ e[Len(e)] = Len(msg)
  /\ \A i \in 1..Len(e) :
       LET b == IF i = 1 THEN 0 ELSE e[i-1]
           g == Furthest(msg, a, b, bs)
       IN \/ e[i] = g
          \* a high surrogate that is not part of a pair may be kept with what follows
          \/ e[i] = g - 2 /\ e[i] > b /\ g < Len(msg) /\ LoneHigh(msg, a, g)

Ends(parts) == [i \in 1..Len(parts) |-> SumSeq([j \in 1..i |-> Len(parts[j])])]

\* --- fields of a template as they appear in the TPDUs --------------------------------
\* the indicators of user data and DCS are set as encoding sets them
MaskPI(pi) == SetField(pi, 1, 2, 0)
SameFields(t, p) ==
  /\ \A f \in {"dir", "oa", "fcs", "ct", "mn", "da", "ra", "scts", "dt", "st", "pid", "dcs", "vp"} : t[f] = p[f]
  /\ SetField(t.fo, UdhiBit, 1, 0) = SetField(p.fo, UdhiBit, 1, 0)
  /\ MaskPI(t.pi) = MaskPI(p.pi)
  /\ (Bit(t.pi, 1) = 1 => Bit(p.pi, 1) = 1)

Counted(t, mr, i) == IF mr = <<>> THEN t.mr ELSE (mr[1] + i) % 256      \* i-th TPDU, from 1

\* out: the TPDUs returned for msg by a template t.
\* mr, cr: <<counts before>>, or <<>> if there is no counter
\* returns [ok, n, multi]: n TPDUs, whether a concatenation reference was used
NoSegs == [ok |-> TRUE, n |-> 0, multi |-> FALSE]
BadSegs == [ok |-> FALSE, n |-> 0, multi |-> FALSE]
CheckSegments(t, msg, is16, mr, cr, out) ==
  IF msg = <<>> THEN IF out = <<>> THEN NoSegs ELSE BadSegs
  ELSE IF Len(msg) <= BlockSize(t, t.udh)
  THEN IF /\ Len(out) = 1
          /\ SameFields(t, out[1]) /\ out[1].fo = t.fo
          /\ out[1].udh = t.udh /\ out[1].ud = msg /\ out[1].mr = Counted(t, mr, 1)
       THEN [ok |-> TRUE, n |-> 1, multi |-> FALSE] ELSE BadSegs
  ELSE LET a   == Alphabet(t.dcs)
           bs  == BlockSize(t, Append(t.udh, ConcatIE(is16, 0, 0, 0)))
           n   == Len(out)
           ref == IF cr = <<>> THEN 1 ELSE cr[1] + 1
           odd == HasLoneHigh(msg, a)
       IN IF out = <<>>
          THEN \* nothing, exactly if it cannot be segmented
               LET c == Cuts(msg, a, 0, bs)
               IN IF bs < 1 \/ ~CutsOk(c) \/ Len(c) > MAXSEGMENTS THEN NoSegs
                  ELSE IF odd /\ (bs = 2 \/ Len(c) * (bs + 2) > MAXSEGMENTS * bs) THEN NoSegs
                  ELSE BadSegs
          ELSE IF /\ n \in 2..MAXSEGMENTS
                  /\ FlattenSeq([i \in 1..n |-> out[i].ud]) = msg
                  /\ IsPartition(msg, a, bs, Ends([i \in 1..n |-> out[i].ud]))
                  /\ \A i \in 1..n :
                       /\ SameFields(t, out[i]) /\ HasUDHI(out[i].fo)
                       /\ out[i].udh = Append(t.udh, ConcatIE(is16, ref, n, i))
                       /\ out[i].mr = Counted(t, mr, i)
               THEN [ok |-> TRUE, n |-> n, multi |-> TRUE] ELSE BadSegs

\* --- completeness ------------------------------------------------------------------
\* segs: a sequence of headers, <<h>> or <<>> for a missing segment
IsComplete(segs) ==
  /\ segs # <<>> /\ \A i \in 1..Len(segs) : segs[i] # <<>>
  /\ LET ci == [i \in 1..Len(segs) |-> ConcatInfo(segs[i][1])]
     IN \/ Len(segs) = 1 /\ ~ci[1].ok
        \/ \A i \in 1..Len(segs) : ci[i].ok /\ ci[i].total = Len(segs) /\ ci[i].seqno = i
                                   /\ ci[i].ref = ci[1].ref
=============================================================================

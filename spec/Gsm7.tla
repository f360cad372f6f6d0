-------------------------------- MODULE Gsm7 --------------------------------
(* Conversion between text (sequences of code points) and GSM 7 bit septets,  *)
(* with a locking and a shift table: 3GPP TS 23.038 6.2.1.                     *)
EXTENDS Octets, Charsets

ESC == 27
SPACE == 32
NoShift == -1                   \* an identifier for "no shift table at all"
ShiftT(nli) == IF nli = NoShift THEN [i \in 1..128 |-> -1] ELSE Shift(nli)
ShiftR(nli) == IF nli = NoShift THEN NoRev ELSE RS(nli)

Encodable(cps, l, s) ==
  LET lr == RL(l)
      sr == ShiftR(s)
  IN \A i \in 1..Len(cps) : SeptetsOf(lr, cps[i]) # {} \/ SeptetsOf(sr, cps[i]) # {}

\* out is an encoding of cps: each character by a septet of the locking table
\* if it has one, else escaped by one of the shift table
IsEncoding(out, cps, l, s) ==
  LET lr == RL(l)
      sr == ShiftR(s)
      n  == Len(out)
      step(pos, c) ==
        IF pos = 0 THEN 0
        ELSE LET ls == SeptetsOf(lr, c)
             IN IF ls # {} THEN IF pos <= n /\ out[pos] \in ls THEN pos + 1 ELSE 0
                ELSE IF pos + 1 <= n /\ out[pos] = ESC /\ out[pos+1] \in SeptetsOf(sr, c) THEN pos + 2 ELSE 0
  IN FoldLeft(step, 1, cps) = n + 1

\* the canonical encoding (lowest septet)
Enc1(c, l, s) == IF SeptetsOf(RL(l), c) # {} THEN <<Min(SeptetsOf(RL(l), c))>>
                 ELSE <<ESC, Min(SeptetsOf(RS(s), c))>>
GsmEncode(cps, l, s) == FlattenSeq([i \in 1..Len(cps) |-> Enc1(cps[i], l, s)])

Char(tab, g) == IF g \in 0..127 THEN tab[g+1] ELSE -1

\* decode: [ok, b]; lenient decoding never fails
GsmDecode(src, l, s, strict) ==
  LET lt == Locking(l)
      st == ShiftT(s)
      \* the septet read with the locking table
      plain(acc, g) ==
        IF Char(lt, g) # -1 THEN [acc EXCEPT !.b = Append(@, Char(lt, g)), !.esc = FALSE]
        ELSE IF strict THEN [acc EXCEPT !.ok = FALSE]
        ELSE [acc EXCEPT !.b = Append(@, SPACE), !.esc = FALSE]
      step(acc, g) ==
        IF ~acc.ok THEN acc
        ELSE IF acc.esc
             THEN IF g = ESC THEN [acc EXCEPT !.b = Append(@, SPACE), !.esc = FALSE]
                  ELSE IF Char(st, g) # -1
                       THEN [acc EXCEPT !.b = Append(@, Char(st, g)), !.esc = FALSE]
                  ELSE IF strict THEN [acc EXCEPT !.ok = FALSE]
                  ELSE plain(acc, g)
        ELSE IF g = ESC THEN [acc EXCEPT !.esc = TRUE]
        ELSE plain(acc, g)
      res == FoldLeft(step, [ok |-> TRUE, esc |-> FALSE, b |-> <<>>], src)
  IN IF ~res.ok THEN Fail
     ELSE Good(IF res.esc THEN Append(res.b, SPACE) ELSE res.b)

\* is every septet of src, as a whole, decodable (so that strict succeeds)?
=============================================================================

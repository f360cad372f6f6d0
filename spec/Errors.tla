-------------------------------- MODULE Errors --------------------------------
(* What an error says: which kind of value it is about, and the value, which    *)
(* is one of those of the input that cannot be had there; its text says it too. *)
EXTENDS Tpdu, Ucs2

\* the septets that strict decoding cannot have, each at its place
BadSeptets(src, l, s) ==
  LET lt == Locking(l)
      st == ShiftT(s)
      step(acc, g) ==
        IF acc.esc THEN IF g = ESC \/ Char(st, g) # -1 THEN [acc EXCEPT !.esc = FALSE]
                        ELSE [esc |-> FALSE, bad |-> acc.bad \cup {g}]
        ELSE IF g = ESC THEN [acc EXCEPT !.esc = TRUE]
        ELSE IF Char(lt, g) # -1 THEN acc
        ELSE [acc EXCEPT !.bad = @ \cup {g}]
  IN FoldLeft(step, [esc |-> FALSE, bad |-> {}], src).bad
BadChars(cps, l, s) == {cps[i] : i \in {i \in 1..Len(cps) : ~Encodable(<<cps[i]>>, l, s)}}
BadDigits(str) == {str[i] : i \in {i \in 1..Len(str) : ~IsDigit(str[i])}}
BadOctets(src) == {src[i] : i \in {i \in 1..Len(src) : ~BcdDecode(src[i]).ok}}

None0 == {[k |-> "none", v |-> <<>>]}
Says(k, values) == IF values = {} THEN None0 ELSE {[k |-> k, v |-> <<v>>] : v \in values}
\* what there is to be said of a call: a set of [k, v], any of which will do
Said(a) ==
  CASE a.o = "genc" -> Says("char", BadChars([i \in 1..Len(a.cps) |-> Sane(a.cps[i])], a.l, a.s))
    [] a.o = "gdec" -> Says("septet", BadSeptets(a.b, a.l, a.s))
    [] a.o = "semie" -> Says("digit", BadDigits(Utf8(a.cps)))
    [] a.o = "bcd" -> Says("integer", {a.n} \ (0..99))
    [] a.o = "bcds" -> Says("integer", {a.n} \ (-79..79))
    [] a.o = "bcdd" -> Says("octet", BadOctets(<<a.n>>))
    [] a.o = "bcdds" -> Says("octet", IF BcdDecodeSigned(a.n).ok THEN {} ELSE {a.n})
    [] a.o \in {"udec", "dud"} ->
         LET d == Ucs2Decode(a.b)
         IN IF d.st = "odd" THEN {[k |-> "length", v |-> <<>>]}
            ELSE IF d.st = "dangling" THEN {[k |-> "dangling", v |-> d.d]} ELSE None0
    [] a.o = "tsu" ->
         IF Len(a.b) < 7 THEN {[k |-> "short", v |-> <<>>]}
         ELSE (IF ParseTime(a.b).st = "may" THEN {[k |-> "other", v |-> <<>>]} ELSE {}) \cup
              Says("octet", BadOctets(Take(a.b, 6)) \cup (IF BcdDecodeSigned(a.b[7]).ok THEN {} ELSE {a.b[7]}))
    [] a.o = "addru" ->
         IF Len(a.b) < 2 \/ Len(a.b) < 2 + (a.b[1] + 1) \div 2 THEN {[k |-> "short", v |-> <<>>]}
         ELSE IF TON(a.b[2]) = ALPHANUMERIC
         THEN Says("septet", BadSeptets(Take(Unpack(SubSeq(a.b, 3, 2 + (a.b[1] + 1) \div 2), 0), (4 * a.b[1]) \div 7), 0, NoShift))
         ELSE IF ParseAddress(a.b).st = "ok" THEN None0
         ELSE {[k |-> k, v |-> <<>>] : k \in {"other", "short"}}
    \* what a TPDU cannot be written for has no value of its own, but a text
    [] a.o = "addrm" ->
         LET bad == IF TON(a.n) = ALPHANUMERIC THEN BadChars(a.cps, 0, NoShift) ELSE BadDigits(Utf8(a.cps))
         IN IF bad # {} THEN {[k |-> "text", v |-> <<c>>] : c \in bad}
            ELSE IF MarshalAddress([toa |-> a.n, a |-> a.cps]).ok THEN None0
            ELSE {[k |-> "other", v |-> <<>>]}
    [] a.o \in {"typem", "typeu"} ->
         Says("type", {t \in {TypeOf(a.s, a.n)} : t > 5})
    \* only those that carry text are collected: 0 deliver, 3 submit
    [] a.o = "col" -> Says("type", {TypeOf(a.s, a.n)} \ {0, 3})

ErrRec(a, r) ==
  \E e \in Said(a) :
    /\ \A i \in 1..Len(e.v) : \E j \in 1..Len(r.t) : r.t[j] = e.v[i]
    \* a type that is supported is refused, or not, for what follows
    /\ \/ a.o \in {"typem", "typeu"} /\ e.k = "none" /\ r.k # "type"
       \/ e.k = "text" /\ r.k # "none"
       \/ r.k = e.k /\ r.v = e.v
=============================================================================

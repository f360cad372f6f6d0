------------------------------ MODULE MC_Segment ------------------------------
(* Segmentation with blocks so small that every way a message can fall on their *)
(* boundaries occurs in short messages.                                         *)
EXTENDS Small

\* a template whose header leaves blocks of exactly bs for each segment, of a DCS
Filler(n) == <<[id |-> 36, d |-> [i \in 1..n |-> i % 256]]>>
Submit(dcs, ies) ==
  [ZeroTPDU EXCEPT !.dir = 1, !.fo = IF ies = <<>> THEN 1 ELSE 65, !.dcs = dcs, !.udh = ies, !.mr = 9,
                   !.da = [toa |-> 145, a |-> <<49, 50>>]]
Leaves(dcs, n, is16, bs) == BlockSize(Submit(dcs, <<>>), Append(Filler(n), ConcatIE(is16, 0, 0, 0))) = bs
Tight(dcs, is16, bs) == Submit(dcs, Filler(CHOOSE n \in 60..140 : Leaves(dcs, n, is16, bs)))

U2(us) == {ToOctets(u) : u \in us}
Gsm == Upto({ESC, 65}, Q(9, 12))
Wide == U2(Upto({65, 55357, 56832}, Q(5, 7)))
Bin == {[i \in 1..n |-> i] : n \in 0..Q(16, 40)} \cup {[i \in 1..n |-> 7] : n \in {254, 255, 256, 509, 510, 511, 766}}
Msgs(dcs) == CASE dcs = 0 -> Gsm [] dcs = 4 -> Bin [] dcs = 8 -> Wide \cup {Append(u, 65) : u \in U2(Upto({65, 55357}, 3))}
Seg(dcs, is16, bs, mr, cr) ==
  LET t == Tight(dcs, is16, bs)
  IN {[k |-> "seg", a |-> [t |-> t, msg |-> m, is16 |-> is16, mr |-> mr, cr |-> cr]] : m \in Msgs(dcs)}
Shares == 1..14
Inputs(i) ==
  CASE i \in 1..4 -> Seg(0, FALSE, i, <<3>>, <<255>>)
    [] i = 5 -> Seg(0, TRUE, 2, <<>>, <<65535>>)
    [] i \in 6..8 -> Seg(4, i = 8, i - 5, <<254>>, <<>>)
    [] i = 9 -> Seg(8, FALSE, 2, <<3>>, <<4>>)
    [] i = 10 -> Seg(8, TRUE, 4, <<3>>, <<256>>)
    [] i = 11 -> Seg(8, FALSE, 6, <<>>, <<>>)
    [] i = 12 -> Seg(4, FALSE, 0, <<1>>, <<1>>) \cup Seg(0, FALSE, 0, <<1>>, <<1>>)
    [] i = 13 -> In1("blk", {[t |-> [Submit(d, IF n < 0 THEN <<>> ELSE Filler(n)) EXCEPT !.fo = f, !.dir = r, !.fcs = c]] :
                              d \in {0, 4, 8}, n \in {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100}, f \in 0..2, r \in 0..1, c \in 0..1})
    [] i = 14 -> In1("blk", {[t |-> [Submit(d, Filler(n)) EXCEPT !.dir = r, !.fo = r]] : d \in {0, 4, 8}, n \in 100..150, r \in 0..1})

\* --- where a message may be cut, from its start ------------------------------------
EscapedAfter(msg, i) == FoldLeft(LAMBDA e, g : g = ESC /\ ~e, FALSE, Take(msg, i))
CutOk(msg, a, i) ==
  \/ i = Len(msg)
  \/ IF a = A7 THEN ~EscapedAfter(msg, i)
     ELSE IF a = AUCS2
     THEN i % 2 = 0 /\ ~(i >= 2 /\ i + 1 < Len(msg) /\ IsHigh(UnitAt(msg, i - 1)) /\ IsLow(UnitAt(msg, i + 1)))
     ELSE TRUE
\* the ends that k blocks can reach
RECURSIVE Reach(_, _, _, _, _)
Reach(msg, a, bs, k, from) ==
  IF k = 0 THEN from
  ELSE Reach(msg, a, bs, k - 1,
             from \cup {e \in 1..Len(msg) : CutOk(msg, a, e) /\ \E b \in from : b < e /\ e - b <= bs})
Piece(msg, c, i) == SubSeq(msg, IF i = 1 THEN 1 ELSE c[i-1] + 1, c[i])
\* what a correct implementation returns
Ideal(t, msg, is16, mr, cr, c) ==
  [i \in 1..Len(c) |->
     [t EXCEPT !.ud = Piece(msg, c, i), !.fo = SetField(@, UdhiBit, 1, 1), !.mr = Counted(t, mr, i),
               !.udh = Append(@, ConcatIE(is16, IF cr = <<>> THEN 1 ELSE cr[1] + 1, Len(c), i))]]
SegLaws(x) ==
  LET t == x.t
      msg == x.msg
      a == Alphabet(t.dcs)
      bs == BlockSize(t, Append(t.udh, ConcatIE(x.is16, 0, 0, 0)))
      c == Cuts(msg, a, 0, bs)
      n == Len(c)
      short == Len(msg) < 30
      out == Ideal(t, msg, x.is16, x.mr, x.cr, c)
      Accepts(o) == CheckSegments(t, msg, x.is16, x.mr, x.cr, o).ok
  IN /\ a = A7 => \A i \in 0..Len(msg) : Mid(msg, a, i) = ~CutOk(msg, a, i)
     /\ (msg # <<>> /\ bs >= 1) =>
        /\ CutsOk(c) => \A i \in 1..n : /\ Len(Piece(msg, c, i)) \in 1..bs /\ CutOk(msg, a, c[i])
                                        /\ FlattenSeq([j \in 1..n |-> Piece(msg, c, j)]) = msg
        \* there is no partition in fewer blocks, and none at all if the greedy one fails
        /\ short => IF CutsOk(c) THEN Len(msg) \notin Reach(msg, a, bs, n - 1, {0})
                    ELSE Len(msg) \notin Reach(msg, a, bs, Len(msg), {0})
        /\ CutsOk(c) => IsPartition(msg, a, bs, c)
     /\ msg = <<>> => Accepts(<<>>) /\ ~Accepts(<<t>>)
     \* one block exactly if it fits
     /\ (msg # <<>> /\ Len(msg) <= BlockSize(t, t.udh)) =>
           /\ Accepts(<<[t EXCEPT !.ud = msg, !.mr = Counted(t, x.mr, 1)]>>) /\ ~Accepts(<<>>)
           /\ (bs >= 1 /\ CutsOk(c)) => ~Accepts(out)
     /\ (Len(msg) > BlockSize(t, t.udh) /\ bs >= 1 /\ CutsOk(c) /\ n <= MAXSEGMENTS) =>
           /\ Accepts(out)
           /\ n > 1 => /\ ~Accepts(Take(out, n - 1)) /\ ~Accepts(Append(out, out[n]))
                       /\ ~Accepts([out EXCEPT ![1] = out[2]])
                       /\ ~Accepts([out EXCEPT ![n].ud = @ \o <<0>>])
                       /\ ~Accepts([out EXCEPT ![1].udh = Tail(@)])
                       \* an element moved to the next block
                       /\ Len(out[1].ud) > 1 /\ Len(out[2].ud) < bs /\ ~HasLoneHigh(msg, a) =>
                            ~Accepts([out EXCEPT ![1].ud = Take(@, Len(@) - 1), ![2].ud = <<out[1].ud[Len(out[1].ud)]>> \o @])
     /\ (Len(msg) > BlockSize(t, t.udh) /\ (bs < 1 \/ ~CutsOk(c) \/ n > MAXSEGMENTS)) => Accepts(<<>>)
\* the block is the most that fits the room
BlkLaws(t) ==
  LET a == Alphabet(t.dcs)
      b == BlockSize(t, t.udh)
      Fits(n) == LET m == MarshalUD(a, t.udh, [i \in 1..n |-> 65]) IN m.ok /\ Len(m.b) - 1 <= UDRoom(t)
      one == IF a = AUCS2 THEN 2 ELSE 1
  IN b > 0 => Fits(b) /\ ~Fits(b + one)
Guarantee(x) == CASE x.k = "seg" -> SegLaws(x.a)
                  [] x.k = "blk" -> BlkLaws(x.a.t)

Init == InitSmall(Shares)
Next == NextSmall(Inputs)
Inv == input = None \/ Guarantee(input)
ASSUME Export(Shares, Inputs)
=============================================================================

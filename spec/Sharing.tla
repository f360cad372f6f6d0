-------------------------------- MODULE Sharing --------------------------------
(* Concurrent calls on one Encoder: each yields what it would alone, but for   *)
(* the counts, which are issued to the calls in some order: every one of them   *)
(* once, those of a call in the order of its TPDUs, and those of a client in    *)
(* the order of its calls.                                                      *)
EXTENDS Encoder

\* the TPDUs of a call as if the counts before it were mr and cr
RefOf(p) == p.udh[Len(p.udh)].d[1]
Multi(pdus) == Len(pdus) > 1
OneRef(pdus) == Multi(pdus) => \A i \in 1..Len(pdus) :
                   /\ pdus[i].udh # <<>> /\ Len(pdus[i].udh[Len(pdus[i].udh)].d) = 3
                   /\ RefOf(pdus[i]) = RefOf(pdus[1])
Renumbered(pdus, mr, cr) ==
  [i \in 1..Len(pdus) |->
     [pdus[i] EXCEPT !.mr = (mr + i) % 256,
                     !.udh = IF Multi(pdus) THEN [@ EXCEPT ![Len(@)] = [@ EXCEPT !.d = [@ EXCEPT ![1] = (cr + 1) % 256]]] ELSE @]]
\* how far a count is from the first one
Since(v, from) == (v - from - 1) % 256
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i+1]
\* of n counts after from, one by one, the number that show as v
Showing(v, n, from) == Cardinality({k \in 1..n : (from + k) % 256 = v})
EachOnce(s, n, from) == /\ Len(s) = n
                        /\ \A v \in 0..255 : Cardinality({i \in 1..Len(s) : s[i] = v}) = Showing(v, n, from)

SharedRec(a, r) ==
  LET base == Config(Config(ZeroCfg, a.opts), a.each)
      cl == 1..Len(a.clients)
      calls(c) == 1..Len(a.clients[c])
      res(c, i) == r.clients[c][i]
      \* of a client, all its TPDUs, and the references of its messages
      pdus(c) == FlattenSeq([i \in calls(c) |-> res(c, i).pdus])
      mrs(c) == [j \in 1..Len(pdus(c)) |-> pdus(c)[j].mr]
      refs(c) == FlattenSeq([i \in calls(c) |-> IF Multi(res(c, i).pdus) THEN <<RefOf(res(c, i).pdus[1])>> ELSE <<>>])
      allMr == FlattenSeq([c \in cl |-> mrs(c)])
      allRef == FlattenSeq([c \in cl |-> refs(c)])
      since(s, from) == [j \in 1..Len(s) |-> Since(s[j], from)]
  IN /\ Len(r.clients) = Len(a.clients) /\ \A c \in cl : Len(r.clients[c]) = Len(a.clients[c])
     /\ \A c \in cl : \A i \in calls(c) :
          LET k == a.clients[c][i]
              p == res(c, i).pdus
          IN /\ OneRef(p)
             /\ CheckEncode(Config(base, k.opts), k.msg, k.cps, 0, 0, [err |-> res(c, i).err, pdus |-> Renumbered(p, 0, 0)]).ok
     /\ EachOnce(allMr, r.mr - a.mr, a.mr) /\ EachOnce(allRef, r.cr - a.cr, a.cr)
     /\ r.mr - a.mr <= 256 => \A c \in cl : Ascending(since(mrs(c), a.mr))
     /\ r.cr - a.cr <= 256 => \A c \in cl : Ascending(since(refs(c), a.cr))
=============================================================================

------------------------------- MODULE MC_Buffer -------------------------------
(* A caller that reads one frame after another into the same octets, and keeps *)
(* what the frames held. What is kept holds a copy of the octets (Copies), or  *)
(* else only says where they are.                                              *)
EXTENDS Naturals, Sequences

CONSTANTS Copies, Frames, Places
VARIABLES octets, kept, held
\* octets: the memory; kept: what the variables hold; held: what they held when read
Mem == 1..Places
Read(k) == IF Copies THEN k.copy ELSE SubSeq(octets, k.from, k.to)
Init == octets = [i \in Mem |-> 0] /\ kept = <<>> /\ held = <<>>
\* the first octet is that of an address, the rest the TPDU: it is kept
Next == \E n \in Mem : \E f \in [1..n -> 1..Frames] :
          /\ Len(kept) < 3
          /\ octets' = [i \in Mem |-> IF i <= n THEN f[i] ELSE octets[i]]
          /\ kept' = Append(kept, [copy |-> Tail(f), from |-> 2, to |-> n])
          /\ held' = Append(held, Tail(f))
AsRead == \A i \in 1..Len(kept) : Read(kept[i]) = held[i]
=============================================================================

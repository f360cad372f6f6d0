-------------------------------- MODULE Small --------------------------------
(* Small scopes, checked exhaustively: the inputs of some calls, in parts, and  *)
(* what the specification itself guarantees of each. The inputs are also       *)
(* written to the file named by OUT, for the calls to be made in the code.     *)
EXTENDS Oracle, Sender, TLC, Json, IOUtils

CONSTANTS Deep              \* a larger scope?
VARIABLES part, input
None == [k |-> "", a |-> <<>>]
In1(k, as) == {[k |-> k, a |-> x] : x \in as}

InitSmall(shares) == part \in shares /\ input = None
NextSmall(Inputs(_)) == input = None /\ input' \in Inputs(part) /\ part' = part
Export(shares, Inputs(_)) ==
  IF "OUT" \in DOMAIN IOEnv /\ IOEnv.OUT # ""
  THEN ndJsonSerialize(IOEnv.OUT, FlattenSeq([i \in 1..Cardinality(shares) |-> SetToSeq(Inputs(i))]))
  ELSE TRUE

\* all sequences over S of at most n elements
Upto(S, n) == UNION {[1..i -> S] : i \in 0..n}
\* the first n elements of the pattern repeated
Rep(pat, n) == [i \in 1..n |-> pat[((i - 1) % Len(pat)) + 1]]
Q(quick, deep) == IF Deep THEN deep ELSE quick
=============================================================================

----------------------------- MODULE Decisions -----------------------------
(* Decision variables: their domains and the documented effect of every      *)
(* public mutator.  A decision's contents are a sequence of elements          *)
(* (scaled), or, for disjoint sets/lists, a sequence of such sequences.       *)
EXTENDS Ops

Disjoint(nd) == nd.op \in {"DisjointBitSets", "DisjointLists"}

InBounds(nd, x, S) == /\ x % S = 0
                      /\ (nd.lb = NONE \/ x >= nd.lb * S)
                      /\ (nd.ub = NONE \/ x <= nd.ub * S)
\* default bounds of an integer variable
IntLb(nd) == IF nd.lb = NONE THEN 0 ELSE nd.lb
IntUb(nd) == IF nd.ub = NONE THEN 2000000000 ELSE nd.ub

CollectionOK(nd, c, S) ==
    /\ Len(c) >= nd.mn /\ Len(c) <= nd.mx
    /\ \A k \in 1..Len(c) : c[k] % S = 0 /\ c[k] >= 0 /\ c[k] < nd.n * S
    /\ Distinct(c)

InDomain(nd, c, S) ==
    CASE nd.op = "Integer" ->
            /\ Len(c) = SizeOf(nd.sh)
            /\ \A k \in 1..Len(c) : c[k] % S = 0 /\ c[k] >= IntLb(nd) * S /\ c[k] <= IntUb(nd) * S
      [] nd.op = "Binary" ->
            Len(c) = SizeOf(nd.sh) /\ \A k \in 1..Len(c) : c[k] \in {0, S}
      [] nd.op \in {"List", "Set"} -> CollectionOK(nd, c, S)
      [] nd.op = "Dyn" -> TRUE
      [] nd.op = "DisjointBitSets" ->
            /\ Len(c) = nd.k
            /\ \A j \in 1..nd.k : Len(c[j]) = nd.n /\ \A i \in 1..Len(c[j]) : c[j][i] \in {0, S}
            /\ \A i \in 1..nd.n : Cardinality({j \in 1..nd.k : c[j][i] # 0}) = 1
      [] nd.op = "DisjointLists" ->
            /\ Len(c) = nd.k
            /\ LET all == FlattenSeq(c)
               IN  /\ Len(all) = nd.n
                   /\ Distinct(all)
                   /\ \A i \in 1..Len(all) : all[i] % S = 0 /\ all[i] >= 0 /\ all[i] < nd.n * S

\* the documented default state
DefaultState(nd, S) ==
    CASE nd.op = "Integer" ->
            LET d == IF IntLb(nd) <= 0 /\ 0 <= IntUb(nd) THEN 0 ELSE IntLb(nd) * S
            IN  [k \in 1..SizeOf(nd.sh) |-> d]
      [] nd.op = "Binary" -> [k \in 1..SizeOf(nd.sh) |-> 0]
      [] nd.op = "List" -> [k \in 1..nd.mx |-> (k - 1) * S]
      [] nd.op = "Set"  -> [k \in 1..nd.mn |-> (k - 1) * S]
      [] nd.op = "Dyn"  -> [k \in 1..(nd.mn0 * RowSize(nd.sh)) |-> 0]
      [] nd.op = "DisjointBitSets" ->
            [j \in 1..nd.k |-> [i \in 1..nd.n |-> IF j = 1 THEN S ELSE 0]]
      [] nd.op = "DisjointLists" ->
            [j \in 1..nd.k |-> IF j = 1 THEN [i \in 1..nd.n |-> (i - 1) * S] ELSE <<>>]

(* ---- mutators ---- *)
SwapAt(c, i, j) == [c EXCEPT ![i + 1] = c[j + 1], ![j + 1] = c[i + 1]]
RemoveAt0(c, i) == SubSeq(c, 1, i) \o SubSeq(c, i + 2, Len(c))
InsertAt0(c, i, x) == SubSeq(c, 1, i) \o <<x>> \o SubSeq(c, i + 1, Len(c))
\* rotate(dest, src): dest gets the value of src, the elements in between shift towards src
RotateTo(c, dest, src) == InsertAt0(RemoveAt0(c, src), dest, c[src + 1])

\* The set of contents a call may leave behind.  m = [k |-> mutator, a |-> arguments, v |-> values].
Candidates(nd, c, S) == {x * S : x \in 0..(nd.n - 1)} \ RangeOf(c)
After(nd, m, c, S) ==
    CASE m.k = "exchange" /\ nd.op \in {"List", "Set"} ->
            LET i == m.a[1] j == m.a[2] n == Len(c) IN
            IF i = j \/ (i >= n /\ j >= n) THEN {c}
            ELSE IF i < n /\ j < n THEN {SwapAt(c, i, j)}
            ELSE LET p == MinI(i, j)      \* one of the two is in the hidden part
                 IN  {[c EXCEPT ![p + 1] = x] : x \in Candidates(nd, c, S)}
      [] m.k = "exchange" -> {SwapAt(c, m.a[1], m.a[2])}
      [] m.k = "rotate" -> {RotateTo(c, m.a[1], m.a[2])}
      [] m.k = "grow" -> {Append(c, x) : x \in Candidates(nd, c, S)}
      [] m.k = "shrink" -> {SubSeq(c, 1, Len(c) - 1)}
      [] m.k = "set_value" ->
            IF m.a[2] < IntLb(nd) \/ m.a[2] > IntUb(nd) THEN {c} ELSE {[c EXCEPT ![m.a[1] + 1] = m.a[2] * S]}
      [] m.k = "flip" -> {[c EXCEPT ![m.a[1] + 1] = S - @]}
      [] m.k = "set" -> {[c EXCEPT ![m.a[1] + 1] = S]}
      [] m.k = "unset" -> {[c EXCEPT ![m.a[1] + 1] = 0]}
      [] m.k \in {"get_value", "containing", "list_size"} -> {c}
      [] m.k = "swap_between" ->
            LET f == m.a[1] + 1 t == m.a[2] + 1 e == m.a[3] + 1
            IN  {[j \in 1..Len(c) |->
                    [i \in 1..Len(c[j]) |->
                        IF i = e /\ j = f THEN c[t][e] ELSE IF i = e /\ j = t THEN c[f][e] ELSE c[j][i]]]}
      [] m.k = "swap_in" -> {[c EXCEPT ![m.a[1] + 1] = SwapAt(c[m.a[1] + 1], m.a[2], m.a[3])]}
      [] m.k = "rotate_in" -> {[c EXCEPT ![m.a[1] + 1] = RotateTo(c[m.a[1] + 1], m.a[2], m.a[3])]}
      [] m.k = "pop_to" ->
            LET f == m.a[1] + 1 t == m.a[3] + 1
                x == c[f][m.a[2] + 1]
                popped == [c EXCEPT ![f] = RemoveAt0(c[f], m.a[2])]
            IN  {[popped EXCEPT ![t] = InsertAt0(popped[t], m.a[4], x)]}
      [] m.k = "set_state" -> {[c EXCEPT ![m.a[1] + 1] = m.v]}
      [] m.k = "dgrow" -> {c \o m.v}
      [] m.k = "dset" -> {[c EXCEPT ![m.a[1] + 1] = m.v[1]]}
      [] m.k = "dshrink" -> {SubSeq(c, 1, Len(c) - RowSize(nd.sh))}

\* calls that must throw and change nothing
MustThrow(nd, m, S) == m.k = "set_value" /\ (m.a[2] < IntLb(nd) \/ m.a[2] > IntUb(nd))

\* the result a call must return (NONE: returns nothing)
Returned(nd, m, c, S) ==
    CASE m.k = "exchange" /\ nd.op \in {"Integer", "Binary"} -> IF c[m.a[1] + 1] # c[m.a[2] + 1] THEN 1 ELSE 0
      [] m.k = "set_value" -> IF c[m.a[1] + 1] # m.a[2] * S THEN 1 ELSE 0
      [] m.k = "set" -> IF c[m.a[1] + 1] # S THEN 1 ELSE 0
      [] m.k = "unset" -> IF c[m.a[1] + 1] # 0 THEN 1 ELSE 0
      [] m.k = "get_value" -> c[m.a[1] + 1]
      [] m.k = "containing" -> (CHOOSE j \in 1..Len(c) : c[j][m.a[1] + 1] # 0) - 1
      [] m.k = "list_size" -> Len(c[m.a[1] + 1])
      [] OTHER -> NONE
=============================================================================

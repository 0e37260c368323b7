------------------------------- MODULE Moves -------------------------------
(* The finite universe of a decision: every state it can be in, and every     *)
(* call its interface allows in a state (Decisions says what a call does).    *)
EXTENDS Graphs

\* sequences of the elements of X of length n
Tuples(X, n) == [1..n -> X]
Injections(X, n) == {f \in [1..n -> X] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Scaled(lo, hi, S) == {x * S : x \in lo..hi}

\* every state in the domain (integer variables must have small bounds)
Domain(nd, S) ==
    CASE nd.op \in {"Integer", "Binary"} -> Tuples(Scaled(nd.lb, nd.ub, S), SizeOf(nd.sh))
      [] nd.op \in {"List", "Set"} -> UNION {Injections(Scaled(0, nd.n - 1, S), k) : k \in nd.mn..nd.mx}
      [] nd.op = "Dyn" -> UNION {Tuples({x \in nd.lo..nd.hi : nd.int = 0 \/ x % S = 0}, k * RowSize(nd.sh)) :
                                    k \in (IF nd.mnsz = NONE THEN 0 ELSE nd.mnsz \div RowSize(nd.sh))..nd.cap}
      [] nd.op = "DisjointBitSets" ->
            {[j \in 1..nd.k |-> [i \in 1..nd.n |-> IF f[i] = j THEN S ELSE 0]] : f \in [1..nd.n -> 1..nd.k]}
      [] nd.op = "DisjointLists" ->
            LET perms == Injections(Scaled(0, nd.n - 1, S), nd.n)
                cuts == {f \in [0..nd.k -> 0..nd.n] : f[0] = 0 /\ f[nd.k] = nd.n /\ \A j \in 1..nd.k : f[j - 1] <= f[j]}
            IN  {[j \in 1..nd.k |-> SubSeq(p, f[j - 1] + 1, f[j])] : p \in perms, f \in cuts}

\* assignments a caller might try: one element too many or too few, one step outside of the bounds,
\* a repeated element, a fraction (on the grid 1/S), an element in no or in several sets
UpTo(X, lo, hi) == UNION {Tuples(X, k) : k \in MaxI(0, lo)..hi}
Grid(lo, hi, S) == {x \in (lo * S)..(hi * S) : TRUE}
Universe(nd, S) ==
    CASE nd.op \in {"Integer", "Binary"} -> UpTo(Grid(nd.lb - 1, nd.ub + 1, S), SizeOf(nd.sh) - 1, SizeOf(nd.sh) + 1)
      [] nd.op \in {"List", "Set"} -> UpTo(Grid(-1, nd.n, S), 0, nd.mx + 1)
      [] nd.op = "DisjointBitSets" -> UpTo(UpTo(Grid(0, 1, S) \cup {2 * S}, nd.n, nd.n), nd.k, nd.k)
                                      \cup UpTo(UpTo({0, S}, nd.n - 1, nd.n + 1), nd.k - 1, nd.k + 1)
      [] nd.op = "DisjointLists" -> UpTo(UpTo(Scaled(0, nd.n - 1, S), 0, nd.n), nd.k - 1, nd.k + 1)
                                    \cup UpTo(UpTo(Grid(-1, nd.n, S), 0, 1), nd.k, nd.k)

Call(k, a, v) == [k |-> k, a |-> a, v |-> v]
Idx(n) == 0..(n - 1)
\* the calls the interface allows for contents c.  Indices of an exchange may lie in the hidden part
\* of a collection; a set_value out of bounds is refused.
Calls(nd, c, S) ==
    CASE nd.op \in {"Integer", "Binary"} ->
            {Call("exchange", <<i, j>>, <<>>) : i, j \in Idx(Len(c))}
            \cup {Call("set_value", <<i, x>>, <<>>) : i \in Idx(Len(c)), x \in (nd.lb - 1)..(nd.ub + 1)}
            \cup (IF nd.op = "Binary" THEN {Call(k, <<i>>, <<>>) : k \in {"flip", "set", "unset"}, i \in Idx(Len(c))} ELSE {})
      [] nd.op \in {"List", "Set"} ->
            {Call("exchange", <<i, j>>, <<>>) : i, j \in Idx(nd.mx)}
            \cup {Call("rotate", <<i, j>>, <<>>) : i, j \in Idx(Len(c))}
            \cup (IF nd.mn < nd.mx /\ Len(c) < nd.mx THEN {Call("grow", <<>>, <<>>)} ELSE {})
            \cup (IF nd.mn < nd.mx /\ Len(c) > nd.mn THEN {Call("shrink", <<>>, <<>>)} ELSE {})
      [] nd.op = "Dyn" ->
            LET row == RowSize(nd.sh)
                vals == {x \in nd.lo..nd.hi : nd.int = 0 \/ x % S = 0}
                min == IF nd.mnsz = NONE THEN 0 ELSE nd.mnsz
            IN  (IF Len(c) < nd.cap * row THEN {Call("dgrow", <<>>, t) : t \in Tuples(vals, row)} ELSE {})
                \cup (IF Len(c) > min THEN {Call("dshrink", <<>>, <<>>)} ELSE {})
                \cup {Call("dset", <<i>>, <<x>>) : i \in Idx(Len(c)), x \in vals}
      [] nd.op = "DisjointBitSets" ->
            {Call("swap_between", <<f, t, e>>, <<>>) : f, t \in Idx(nd.k), e \in Idx(nd.n)}
      [] nd.op = "DisjointLists" ->
            UNION {UNION {{Call("swap_in", <<f, i, j>>, <<>>), Call("rotate_in", <<f, i, j>>, <<>>)} : i, j \in Idx(Len(c[f + 1]))} : f \in Idx(nd.k)}
            \cup UNION {{Call("pop_to", <<f, i, t, j>>, <<>>) : i \in Idx(Len(c[f + 1])),
                                j \in 0..(IF f = t THEN Len(c[t + 1]) - 1 ELSE Len(c[t + 1]))} : f, t \in Idx(nd.k)}
=============================================================================

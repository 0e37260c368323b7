---------------------------- MODULE MCConstruct -----------------------------
(* Every construction of a kind from the operands of one small instance, with *)
(* the verdict of Construct, and the values of the accepted ones in every     *)
(* state of the operands.  Every construction is printed; the checks carry    *)
(* all of them out in the real package (vlib/mcconstruct.py).                 *)
EXTENDS Construct, Moves, Json, TLC

Inst == JsonDeserialize("instance.json")
Sc == Inst.S
G == Inst.prefix
St == ShapesFrom(G, <<>>)
Ops == {k \in 1..Len(G) : HasArray(G, k)}
Kind(k) == \E i \in DOMAIN Inst.kinds : Inst.kinds[i] = k

Node(op, p) == [op |-> op, p |-> [k \in DOMAIN p |-> p[k] - 1], tol |-> IF op \in {"Divide", "SquareRoot"} THEN 1 ELSE 0]
Plain(op, ar) == {Node(op, p) : p \in Tuples(Ops, ar)}
With(nd, f) == f @@ nd
Ints == Inst.imin..Inst.imax
Slice == IF Inst.wide = 1 THEN {<<1, a, b, c>> : a, b \in {NONE} \cup Ints, c \in {NONE} \cup (-1..3)}
         ELSE {<<1, a, b, c>> : a, b \in {NONE, 1, -1}, c \in {NONE, 2}}
Entries == {<<0, a, 0, 0>> : a \in Ints} \cup Slice
Arr == <<2, 0, 0, 0>>
ArrEntries == {Arr, FullSlice}
ItemEntries == {Arr, FullSlice, <<1, 1, NONE, NONE>>, <<1, NONE, NONE, 2>>} \cup {<<0, a, 0, 0>> : a \in {0, -1, 1, 2}}
NArr(idx) == Cardinality(AdvArrayAxes(idx))
\* an index expression for every base (a shorter one, too, if minus = 1; and one that is too long);
\* as many index arrays as it asks for
Indexings(op, E, minus, na) ==
    UNION {UNION {{With(Node(op, <<b>> \o f), [idx |-> idx]) : f \in Tuples(Ops, NArr(idx))}
                  : idx \in {i \in UNION {Tuples(E, n) : n \in MaxI(1, Len(St[b]) - minus)..Len(St[b])}
                                   \cup {[k \in 1..(Len(St[b]) + 1) |-> x] : x \in {FullSlice, <<0, 0, 0, 0>>, Arr}} : NArr(i) <= na}}
           : b \in {b \in Ops : Len(St[b]) <= Inst.dims}}

Universe1 ==
    (IF Kind("unary") THEN UNION {Plain(op, 1) : op \in UnaryOps \cup {"Size"}} ELSE {})
    \cup (IF Kind("binary") THEN UNION {Plain(op, 2) : op \in BinaryOps} ELSE {})
    \cup (IF Kind("nary") THEN UNION {UNION {Plain(op, n) : n \in 1..3} : op \in NaryOps} ELSE {})
    \cup (IF Kind("reduce") THEN {With(nd, [hi |-> 0, init |-> 0]) : nd \in UNION {Plain(op, 1) : op \in ReduceOps}} ELSE {})
    \cup (IF Kind("psum") THEN {With(nd, [ax |-> a]) : nd \in Plain("PartialSum", 1), a \in 0..3} ELSE {})
    \cup (IF Kind("where") THEN Plain("Where", 3) ELSE {})
    \cup (IF Kind("reshape") THEN {With(nd, [sh |-> s]) : nd \in Plain("Reshape", 1), s \in UNION {Tuples(0..4, n) : n \in 0..3}} ELSE {})
    \cup (IF Kind("concat") THEN {With(nd, [ax |-> a]) : nd \in UNION {Plain("Concatenate", n) : n \in 1..3}, a \in 0..2} ELSE {})
    \cup (IF Kind("permutation") THEN {With(nd, [const |-> IF G[nd.p[1] + 1].op = "Constant" THEN 1 ELSE 0]) : nd \in Plain("Permutation", 2)} ELSE {})
    \cup (IF Kind("basic") THEN Indexings("BasicIndexing", Entries, 0, 0) ELSE {})
    \cup (IF Kind("advanced") THEN Indexings("AdvancedIndexing", ArrEntries, 1, 3) ELSE {})
    \cup (IF Kind("item") THEN Indexings("GetItem", ItemEntries, 1, 2) ELSE {})

VARIABLES nd, j
vars == <<nd, j>>
Info(p) == [k \in DOMAIN p |-> LeafInfo(G[p[k] + 1], Sc)]
PSt(p) == [k \in DOMAIN p |-> St[p[k] + 1]]
Verdict(x) == Judge(x, PSt(x.p), Info(x.p), Sc)
Init == /\ nd \in Universe1
        /\ j = (IF nd.op = "Permutation" /\ G[nd.p[2] + 1].op # "List" THEN "no" ELSE Verdict(nd))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- what has to hold ---- *)
Ds == Decisions(G)
Needs(x) == {d \in Ds : \E k \in DOMAIN x.p : x.p[k] + 1 \in Reach(G, {d})}
\* all states of the decisions the symbol depends on
States(x) == LET RECURSIVE all(_)
                 all(X) == IF X = {} THEN {[d \in {} |-> <<>>]}
                           ELSE LET d == CHOOSE d \in X : TRUE
                                IN  {(d :> c) @@ f : c \in Domain(G[d], Sc), f \in all(X \ {d})}
                 rest == [d \in Ds \ Needs(x) |-> DefaultState(G[d], Sc)]
             IN  {f @@ rest : f \in all(Needs(x))}
\* what is accepted has a value, of the declared shape, in every state of its operands
Valued == j = "ok" =>
    \A f \in States(nd) :
        LET vals == EvalAll(G, St, f, Sc)
            e == Eval(nd, [k \in DOMAIN nd.p |-> vals[nd.p[k] + 1]], PSt(nd.p), Sc)
            s == StaticShape(nd, PSt(nd.p))
        IN  /\ SizeOf(e.sh) = Len(e.v)
            /\ Len(s) = Len(e.sh)
            /\ \A k \in DOMAIN s : s[k] = e.sh[k] \/ (k = 1 /\ s[1] < 0)
Emit == PrintT("NODE " \o ToJson(<<nd, j>>))
=============================================================================

------------------------------- MODULE Graphs -------------------------------
(* Expression graphs: a graph g is a sequence of node records (see Ops), st   *)
(* its static shapes.  Evaluation from scratch and reachability.              *)
EXTENDS Decisions

Alive(g, i) == g[i].op # "Dead"
HasArray(g, i) == g[i].op \notin {"Dead", "DisjointBitSets", "DisjointLists"}
PredSet(g, i) == {g[i].p[k] + 1 : k \in DOMAIN g[i].p}
Args(g, i, vals) == [k \in DOMAIN g[i].p |-> vals[g[i].p[k] + 1]]
ArgShapes(g, i, st) == [k \in DOMAIN g[i].p |-> st[g[i].p[k] + 1]]

\* the output nodes of a disjoint decision, in order
Outputs(g, d) == SelectSeq([k \in 1..Len(g) |-> k],
                           LAMBDA k : g[k].op \in OutputOps /\ g[k].p[1] + 1 = d)
Contents(g, vals, d) ==
    IF Disjoint(g[d]) THEN LET o == Outputs(g, d) IN [j \in 1..Len(o) |-> vals[o[j]].v]
    ELSE vals[d].v
Decisions(g) == {i \in 1..Len(g) : g[i].op \in DecisionOps}

\* nodes reachable from the sources, sources included
RECURSIVE Reach(_, _)
Reach(g, X) ==
    LET Y == X \cup {i \in 1..Len(g) : PredSet(g, i) \cap X # {}}
    IN  IF Y = X THEN X ELSE Reach(g, Y)

NoValue == [sh |-> <<>>, v |-> <<>>]
DecShape(nd, c) ==
    IF nd.op \in {"List", "Set", "DisjointList"} THEN <<Len(c)>>
    ELSE IF nd.op = "DisjointBitSet" THEN <<nd.n>>
    ELSE IF nd.op = "Dyn" THEN <<Len(c) \div RowSize(nd.sh)>> \o Tail(nd.sh)
    ELSE nd.sh

\* The value of every node as a function of the decisions' contents: evaluation from scratch
RECURSIVE EvalFrom(_, _, _, _, _)
EvalFrom(g, st, decs, acc, S) ==
    IF Len(acc) = Len(g) THEN acc
    ELSE LET i == Len(acc) + 1
             nd == g[i]
             v == IF nd.op \in {"Dead", "DisjointBitSets", "DisjointLists"} THEN NoValue
                  ELSE IF nd.op \in DecisionOps THEN [sh |-> DecShape(nd, decs[i]), v |-> decs[i]]
                  ELSE IF nd.op \in OutputOps
                       THEN LET d == nd.p[1] + 1
                                j == CHOOSE k \in 1..Len(Outputs(g, d)) : Outputs(g, d)[k] = i
                            IN  [sh |-> DecShape(nd, decs[d][j]), v |-> decs[d][j]]
                  ELSE Eval(nd, Args(g, i, acc), ArgShapes(g, i, st), S)
         IN  EvalFrom(g, st, decs, Append(acc, v), S)
EvalAll(g, st, decs, S) == EvalFrom(g, st, decs, <<>>, S)
DecisionContents(g, vals) == [d \in Decisions(g) |-> Contents(g, vals, d)]

\* every functional node is its definition applied to its predecessors
Consistent(g, st, vals, S) ==
    \A i \in 1..Len(g) : HasArray(g, i) /\ Functional(g[i]) =>
        LET e == Eval(g[i], Args(g, i, vals), ArgShapes(g, i, st), S)
        IN  vals[i].v = e.v /\ vals[i].sh = e.sh

=============================================================================

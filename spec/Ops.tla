-------------------------------- MODULE Ops --------------------------------
(* The denotation of every node of the expression graph: a node record      *)
(* [op, p, ...parameters] applied to the values of its predecessors, plus    *)
(* the static shape calculus.  A value is [sh |-> shape, v |-> elements].    *)
(* All numbers are multiplied by the scale S, so "true" is S.                *)
EXTENDS NdArray

(* ---- scalar functions (scaled fixed point) ---- *)
Mul(a, b, S) == (a * b) \div S
Tr(c, S) == IF c THEN S ELSE 0
ModI(a, b) == IF b = 0 THEN 0 ELSE IF b > 0 THEN a % b ELSE -((-a) % (-b))
ISqrt(n) == CHOOSE r \in 0..46340 : r * r <= n /\ (r + 1) * (r + 1) > n
\* divide: exact quotient expected
DivI(a, b, S) == IF b > 0 THEN (a * S) \div b ELSE (-(a * S)) \div (-b)

UnaryOps  == {"Absolute", "Logical", "Negative", "Not", "Square", "SquareRoot"}
BinaryOps == {"Add", "And", "Divide", "Equal", "LessEqual", "Multiply", "Maximum", "Minimum",
              "Modulus", "Or", "Subtract", "Xor"}
NaryOps   == {"NaryAdd", "NaryMaximum", "NaryMinimum", "NaryMultiply"}
ReduceOps == {"All", "Any", "Max", "Min", "Prod", "Sum"}
BoolOps   == {"And", "Equal", "LessEqual", "Or", "Xor", "Logical", "Not", "All", "Any"}
DecisionOps == {"Integer", "Binary", "List", "Set", "Dyn", "DisjointBitSets", "DisjointLists"}
OutputOps == {"DisjointBitSet", "DisjointList"}
\* decisions and their outputs carry state of their own; the others are functions
Functional(nd) == nd.op \notin (DecisionOps \cup OutputOps)

UnaryFn(op, a, S) ==
    CASE op = "Absolute" -> AbsI(a)
      [] op = "Logical"  -> Tr(a # 0, S)
      [] op = "Negative" -> -a
      [] op = "Not"      -> Tr(a = 0, S)
      [] op = "Square"   -> Mul(a, a, S)
      [] op = "SquareRoot" -> ISqrt(a * S)

BinaryFn(op, a, b, S) ==
    CASE op = "Add"       -> a + b
      [] op = "And"       -> Tr(a # 0 /\ b # 0, S)
      [] op = "Divide"    -> DivI(a, b, S)
      [] op = "Equal"     -> Tr(a = b, S)
      [] op = "LessEqual" -> Tr(a <= b, S)
      [] op = "Multiply"  -> Mul(a, b, S)
      [] op = "Maximum"   -> MaxI(a, b)
      [] op = "Minimum"   -> MinI(a, b)
      [] op = "Modulus"   -> ModI(a, b)
      [] op = "Or"        -> Tr(a # 0 \/ b # 0, S)
      [] op = "Subtract"  -> a - b
      [] op = "Xor"       -> Tr((a # 0) # (b # 0), S)

NaryFn(op, a, b, S) ==
    CASE op = "NaryAdd"      -> a + b
      [] op = "NaryMaximum"  -> MaxI(a, b)
      [] op = "NaryMinimum"  -> MinI(a, b)
      [] op = "NaryMultiply" -> Mul(a, b, S)

ReduceFn(op, a, b, S) ==
    CASE op = "All"  -> Tr(a # 0 /\ b # 0, S)
      [] op = "Any"  -> Tr(a # 0 \/ b # 0, S)
      [] op = "Max"  -> MaxI(a, b)
      [] op = "Min"  -> MinI(a, b)
      [] op = "Prod" -> Mul(a, b, S)
      [] op = "Sum"  -> a + b
ReduceInit(op, S) ==
    CASE op \in {"All", "Prod"} -> S
      [] op \in {"Any", "Sum"}  -> 0

(* ---- static shapes ---- *)
\* idx entries: <<kind, a, b, c>>: kind 0 integer a, 1 slice a:b:c, 2 array (next predecessor)
AdvArrayAxes(idx) == {k \in DOMAIN idx : idx[k][1] = 2}
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
SetMax(X) == CHOOSE x \in X : \A y \in X : x >= y
\* NumPy: the dimensions of the index arrays replace them in place if they are adjacent and
\* come first otherwise
AdvShape(base, idx, ish) ==
    LET A == AdvArrayAxes(idx)
        adjacent == \A k \in SetMin(A)..SetMax(A) : k \in A
        sl(lo, hi) == LET ks == SelectSeq([k \in 1..(hi - lo + 1) |-> lo + k - 1], LAMBDA k : k \notin A)
                      IN  [j \in 1..Len(ks) |-> base[ks[j]]]
    IN  IF adjacent THEN sl(1, SetMin(A) - 1) \o ish \o sl(SetMax(A) + 1, Len(idx))
        ELSE ish \o sl(1, Len(idx))
BasicShape(base, idx) ==
    LET ks == SelectSeq([k \in 1..Len(idx) |-> k], LAMBDA k : idx[k][1] = 1)
    IN  [j \in 1..Len(ks) |->
            LET k == ks[j] IN
            IF base[k] < 0 THEN -1 ELSE SliceLen(<<idx[k][2], idx[k][3], idx[k][4]>>, base[k])]
\* NumPy's x[idx] for integers, slices and index arrays: missing indices are full slices; as soon
\* as there is an index array, integers count as index arrays too
FullSlice == <<1, NONE, NONE, NONE>>
PadIdx(idx, n) == idx \o [k \in 1..(n - Len(idx)) |-> FullSlice]
Fancy(ix) == IF \E k \in DOMAIN ix : ix[k][1] = 2 THEN {k \in DOMAIN ix : ix[k][1] \in {0, 2}} ELSE {}
Together(F) == F = {} \/ \A k \in SetMin(F)..SetMax(F) : k \in F
ItemShape(base, idx, ish) ==
    LET ix == PadIdx(idx, Len(base))
        F == Fancy(ix)
        len(k) == IF base[k] < 0 THEN -1 ELSE SliceLen(<<ix[k][2], ix[k][3], ix[k][4]>>, base[k])
        sl(lo, hi) == LET ks == SelectSeq([j \in 1..(hi - lo + 1) |-> lo + j - 1], LAMBDA k : ix[k][1] = 1)
                      IN  [j \in 1..Len(ks) |-> len(ks[j])]
    IN  IF F = {} THEN sl(1, Len(ix))
        ELSE IF Together(F) THEN sl(1, SetMin(F) - 1) \o ish \o sl(SetMax(F) + 1, Len(ix))
        ELSE ish \o sl(1, Len(ix))
\* a reshape target may contain one -1
ReshapeTo(sh, n) ==
    LET other == ProdSeq(SelectSeq(sh, LAMBDA d : d >= 0))
    IN  [k \in 1..Len(sh) |-> IF sh[k] >= 0 THEN sh[k] ELSE IF other = 0 THEN 0 ELSE n \div other]

StaticShape(nd, ps) ==        \* ps: static shapes of the predecessors
    CASE nd.op \in {"Constant", "Integer", "Binary", "Dyn"} -> nd.sh
      [] nd.op \in {"List", "Set"} -> IF nd.mn = nd.mx THEN <<nd.mx>> ELSE << -1 >>
      [] nd.op = "DisjointBitSet"  -> <<nd.n>>
      [] nd.op = "DisjointList"    -> << -1 >>
      [] nd.op \in {"DisjointBitSets", "DisjointLists"} -> <<>>
      [] nd.op \in UnaryOps        -> ps[1]
      [] nd.op \in BinaryOps       -> BroadcastShape(ps[1], ps[2])
      [] nd.op \in NaryOps         -> ps[1]
      [] nd.op \in ReduceOps       -> <<>>
      [] nd.op = "PartialSum"      -> WithoutAt(ps[1], nd.ax + 1)
      [] nd.op = "Where"           -> ps[2]
      [] nd.op \in {"Size", "QuadraticModel"} -> <<>>
      [] nd.op = "Reshape"         -> ReshapeTo(nd.sh, SizeOf(ps[1]))
      [] nd.op = "Concatenate"     ->
            [k \in 1..Len(ps[1]) |-> IF k = nd.ax + 1 THEN SumSeq([j \in 1..Len(ps) |-> ps[j][k]]) ELSE ps[1][k]]
      [] nd.op = "Permutation"     -> ps[1]
      [] nd.op = "BasicIndexing"   -> BasicShape(ps[1], nd.idx)
      [] nd.op = "AdvancedIndexing" -> AdvShape(ps[1], nd.idx, ps[2])
      [] nd.op = "GetItem"         -> ItemShape(ps[1], nd.idx, IF Len(ps) > 1 THEN ps[2] ELSE <<>>)
      [] nd.op = "Same"            -> ps[1]
      [] nd.op = "Dead" -> <<>>          \* construction was refused

RECURSIVE ShapesFrom(_, _)
ShapesFrom(nodes, acc) ==
    IF Len(acc) = Len(nodes) THEN acc
    ELSE LET nd == nodes[Len(acc) + 1]
         IN  ShapesFrom(nodes, Append(acc, StaticShape(nd, [k \in 1..Len(nd.p) |-> acc[nd.p[k] + 1]])))

(* ---- values ---- *)
EvBinary(nd, a, b, sa, sb, S) ==     \* sa, sb: static shapes
    IF sa = sb
    THEN [sh |-> a.sh, v |-> [k \in 1..Len(a.v) |-> BinaryFn(nd.op, a.v[k], b.v[k], S)]]
    ELSE IF StaticSize(sb) = 1 /\ (StaticSize(sa) # 1 \/ Len(sa) >= Len(sb))
    THEN [sh |-> IF Len(sb) <= Len(sa) THEN a.sh ELSE BroadcastShape(a.sh, b.sh),
          v |-> [k \in 1..Len(a.v) |-> BinaryFn(nd.op, a.v[k], b.v[1], S)]]
    ELSE [sh |-> IF Len(sa) <= Len(sb) THEN b.sh ELSE BroadcastShape(a.sh, b.sh),
          v |-> [k \in 1..Len(b.v) |-> BinaryFn(nd.op, a.v[1], b.v[k], S)]]

EvReduce(nd, a, S) ==
    LET f(x, y) == ReduceFn(nd.op, x, y, S)
        norm(x) == IF nd.op \in {"All", "Any"} THEN Tr(x # 0, S) ELSE x
        init == IF nd.hi = 1 THEN nd.init
                ELSE IF nd.op \in {"Max", "Min"} THEN a.v[1] ELSE ReduceInit(nd.op, S)
    IN  [sh |-> <<>>, v |-> << FoldLeft(LAMBDA x, y : f(x, y), norm(init), a.v) >>]

EvPartialSum(nd, a) ==
    LET ax == nd.ax + 1
        sh == WithoutAt(a.sh, ax)
        full(ix, t) == [k \in 1..Len(a.sh) |-> IF k < ax THEN ix[k] ELSE IF k = ax THEN t ELSE ix[k - 1]]
    IN  [sh |-> sh,
         v |-> [j \in 1..SizeOf(sh) |->
                  LET ix == Unravel(j - 1, sh)
                  IN  SumSeq([t \in 1..a.sh[ax] |-> a.v[Ravel(full(ix, t - 1), a.sh) + 1]])]]

EvConcat(nd, as) ==
    LET ax == nd.ax + 1
        n == Len(as)
        off[j \in 1..(n + 1)] == IF j = 1 THEN 0 ELSE off[j - 1] + as[j - 1].sh[ax]
        sh == [k \in 1..Len(as[1].sh) |-> IF k = ax THEN off[n + 1] ELSE as[1].sh[k]]
        which(t) == CHOOSE j \in 1..n : off[j] <= t /\ t < off[j + 1]
    IN  [sh |-> sh,
         v |-> [j \in 1..SizeOf(sh) |->
                  LET ix == Unravel(j - 1, sh)
                      w  == which(ix[ax])
                      jx == [k \in 1..Len(sh) |-> IF k = ax THEN ix[k] - off[w] ELSE ix[k]]
                  IN  as[w].v[Ravel(jx, as[w].sh) + 1]]]

EvBasic(nd, a) ==
    LET idx == nd.idx
        sel == [k \in 1..Len(idx) |->
                  IF idx[k][1] = 0
                  THEN << IF idx[k][2] < 0 THEN idx[k][2] + a.sh[k] ELSE idx[k][2] >>
                  ELSE SliceIdx(<<idx[k][2], idx[k][3], idx[k][4]>>, a.sh[k])]
        lens == [k \in 1..Len(idx) |-> Len(sel[k])]
        ks == SelectSeq([k \in 1..Len(idx) |-> k], LAMBDA k : idx[k][1] = 1)
        sh == [j \in 1..Len(ks) |-> lens[ks[j]]]
    IN  [sh |-> sh,
         v |-> [j \in 1..SizeOf(sh) |->
                  LET ix == Unravel(j - 1, lens)
                  IN  a.v[Ravel([k \in 1..Len(idx) |-> sel[k][ix[k] + 1]], a.sh) + 1]]]

\* arrs: values of the index arrays (all of the same shape, 0-d or 1-d), scaled
EvAdvanced(nd, a, arrs, S) ==
    LET idx == nd.idx
        A == AdvArrayAxes(idx)
        ish == arrs[1].sh
        sh == AdvShape(a.sh, idx, ish)
        adjacent == \A k \in SetMin(A)..SetMax(A) : k \in A
        \* position (axis) in the output where the index dimensions start
        at == IF adjacent THEN SetMin(A) ELSE 1
        nth(k) == Cardinality({x \in A : x <= k})
        slicepos(k) == LET before == Cardinality({x \in 1..(k - 1) : x \notin A})
                       IN  IF before + 1 >= at THEN before + 1 + Len(ish) ELSE before + 1
        From(ix) == LET t == Ravel([q \in 1..Len(ish) |-> ix[at + q - 1]], ish) + 1
                    IN  [k \in 1..Len(idx) |->
                            IF k \in A THEN arrs[nth(k)].v[t] \div S ELSE ix[slicepos(k)]]
    IN  Gather(a, sh, From)

\* x[idx]
EvItem(nd, a, arrs, S) ==
    LET ix == PadIdx(nd.idx, Len(a.sh))
        F == Fancy(ix)
        ish == IF arrs = <<>> THEN <<>> ELSE arrs[1].sh
        sh == ItemShape(a.sh, nd.idx, ish)
        sel == [k \in DOMAIN ix |-> IF ix[k][1] = 1 THEN SliceIdx(<<ix[k][2], ix[k][3], ix[k][4]>>, a.sh[k]) ELSE <<>>]
        at == IF F = {} \/ ~Together(F) THEN 1 ELSE Cardinality({k \in 1..(SetMin(F) - 1) : ix[k][1] = 1}) + 1
        nth(k) == Cardinality({x \in 1..k : ix[x][1] = 2})
        before(k) == Cardinality({x \in 1..(k - 1) : ix[x][1] = 1})
        slicepos(k) == IF before(k) + 1 >= at THEN before(k) + 1 + Len(ish) ELSE before(k) + 1
        From(ox) == LET t == Ravel([q \in 1..Len(ish) |-> ox[at + q - 1]], ish) + 1
                    IN  [k \in DOMAIN ix |->
                            CASE ix[k][1] = 0 -> (IF ix[k][2] < 0 THEN ix[k][2] + a.sh[k] ELSE ix[k][2])
                              [] ix[k][1] = 1 -> sel[k][ox[slicepos(k)] + 1]
                              [] ix[k][1] = 2 -> arrs[nth(k)].v[t] \div S]
    IN  Gather(a, sh, From)

EvPermutation(a, o, S) ==
    Gather(a, a.sh, LAMBDA ix : [k \in 1..Len(ix) |-> o.v[ix[k] + 1] \div S])

\* nd.lin: linear biases, nd.quad: <<u, v, bias>> triples (u = v gives a square)
EvQuadratic(nd, a, S) ==
    LET n == Len(nd.lin)
        lin == SumSeq([k \in 1..n |-> Mul(nd.lin[k], a.v[k], S)])
        qd  == SumSeq([k \in 1..Len(nd.quad) |->
                 LET q == nd.quad[k] IN Mul(Mul(q[3], a.v[q[1] + 1], S), a.v[q[2] + 1], S)])
    IN  [sh |-> <<>>, v |-> <<lin + qd>>]

\* args: predecessor values; st: their static shapes
Eval(nd, args, st, S) ==
    CASE nd.op = "Constant" -> [sh |-> nd.sh, v |-> nd.v]
      [] nd.op \in UnaryOps ->
            [sh |-> args[1].sh, v |-> [k \in 1..Len(args[1].v) |-> UnaryFn(nd.op, args[1].v[k], S)]]
      [] nd.op \in BinaryOps -> EvBinary(nd, args[1], args[2], st[1], st[2], S)
      [] nd.op \in NaryOps ->
            [sh |-> args[1].sh,
             v |-> [k \in 1..Len(args[1].v) |->
                     FoldLeft(LAMBDA x, y : NaryFn(nd.op, x, y, S), args[1].v[k],
                              [j \in 1..(Len(args) - 1) |-> args[j + 1].v[k]])]]
      [] nd.op \in ReduceOps -> EvReduce(nd, args[1], S)
      [] nd.op = "PartialSum" -> EvPartialSum(nd, args[1])
      [] nd.op = "Where" ->
            IF StaticSize(st[1]) = 1
            THEN LET w == IF args[1].v[1] # 0 THEN args[2] ELSE args[3] IN [sh |-> w.sh, v |-> w.v]
            ELSE [sh |-> args[2].sh,
                  v |-> [k \in 1..Len(args[2].v) |-> IF args[1].v[k] # 0 THEN args[2].v[k] ELSE args[3].v[k]]]
      [] nd.op = "Size" -> [sh |-> <<>>, v |-> <<S * Len(args[1].v)>>]
      [] nd.op = "Reshape" -> [sh |-> ReshapeTo(nd.sh, Len(args[1].v)), v |-> args[1].v]
      [] nd.op = "Concatenate" -> EvConcat(nd, args)
      [] nd.op = "Permutation" -> EvPermutation(args[1], args[2], S)
      [] nd.op = "BasicIndexing" -> EvBasic(nd, args[1])
      [] nd.op = "AdvancedIndexing" -> EvAdvanced(nd, args[1], Tail(args), S)
      [] nd.op = "QuadraticModel" -> EvQuadratic(nd, args[1], S)
      [] nd.op = "GetItem" -> EvItem(nd, args[1], Tail(args), S)
      [] nd.op = "Same" -> [sh |-> args[1].sh, v |-> args[1].v]

(* Inexact nodes (nd.tol = 1: a quotient or a root that is not on the grid)   *)
(* are judged by the defining equation up to one unit of the grid.            *)
WithinTol(nd, args, st, obs, S) ==
    IF nd.op = "SquareRoot"
    THEN /\ obs.sh = args[1].sh /\ Len(obs.v) = Len(args[1].v)
         /\ \A k \in 1..Len(obs.v) :
               LET r == obs.v[k] x == args[1].v[k] * S
               IN  r >= 0 /\ (r = 0 \/ (r - 1) * (r - 1) <= x) /\ x <= (r + 1) * (r + 1)
    ELSE LET e == Eval(nd, args, st, S)
         IN  /\ obs.sh = e.sh /\ Len(obs.v) = Len(e.v)
             /\ \A k \in 1..Len(obs.v) : AbsI(obs.v[k] - e.v[k]) <= 1

\* the observation of a node is its defining function of the observed predecessors
NodeOK(nd, args, st, obs, S) ==
    IF nd.tol = 1 THEN WithinTol(nd, args, st, obs, S)
    ELSE LET e == Eval(nd, args, st, S) IN obs.v = e.v /\ obs.sh = e.sh /\ obs.x = 0
ValueOK(nd, args, st, obs, S) ==       \* elements only (the shape is C05's business)
    IF nd.tol = 1 THEN WithinTol(nd, args, st, [obs EXCEPT !.sh = Eval(nd, args, st, S).sh], S)
    ELSE LET e == Eval(nd, args, st, S) IN obs.v = e.v /\ obs.x = 0
ShapeOK(nd, args, st, obs, S) == obs.sh = Eval(nd, args, st, S).sh
=============================================================================

----------------------------- MODULE Construct -----------------------------
(* Which constructions are supported.  Judge yields "ok" (must be accepted),  *)
(* "no" (must be refused) or "any" (not determined by what is known).         *)
(*   pst    static shapes of the operands                                     *)
(*   info   what is known about the operands' values:                         *)
(*          [lo, hi |-> declared bounds (NONE: unknown), int |-> 0/1/2,       *)
(*           cont |-> 0/1/2 (2: unknown), rows |-> least size of a dynamic    *)
(*           array's first axis (NONE: unknown)]                              *)
EXTENDS Graphs

All3(X) == IF "no" \in X THEN "no" ELSE IF "any" \in X THEN "any" ELSE "ok"
Must(c) == IF c THEN "ok" ELSE "no"
Unknown == [lo |-> NONE, hi |-> NONE, int |-> 2, cont |-> 2, rows |-> NONE]

\* what a node's own declaration says about its elements
LeafInfo(nd, S) ==
    CASE nd.op = "Constant" /\ nd.v # <<>> ->
            [lo |-> SetMin(RangeOf(nd.v)), hi |-> SetMax(RangeOf(nd.v)), int |-> IF \A k \in DOMAIN nd.v : nd.v[k] % S = 0 THEN 1 ELSE 0,
             cont |-> 1, rows |-> NONE]
      [] nd.op = "Integer" -> [lo |-> IF nd.lb = NONE THEN 0 ELSE nd.lb * S,
                               hi |-> IF nd.ub = NONE THEN 2000000000 ELSE nd.ub * S, int |-> 1, cont |-> 1, rows |-> NONE]
      [] nd.op \in {"Binary", "DisjointBitSet"} -> [lo |-> 0, hi |-> S, int |-> 1, cont |-> 1, rows |-> NONE]
      [] nd.op \in {"List", "Set", "DisjointList"} ->
            [lo |-> 0, hi |-> (nd.n - 1) * S, int |-> 1, cont |-> 1, rows |-> IF nd.op = "DisjointList" THEN 0 ELSE nd.mn]
      \* these write their result to a buffer of their own
      [] nd.op \in (UnaryOps \cup BinaryOps \cup NaryOps \cup ReduceOps \cup {"Where", "PartialSum", "Concatenate", "Size",
                    "AdvancedIndexing", "Permutation", "QuadraticModel"}) ->
            [Unknown EXCEPT !.cont = 1, !.int = IF nd.op \in BoolOps \cup {"Size"} THEN 1 ELSE 2,
                            !.lo = IF nd.op \in BoolOps THEN 0 ELSE NONE, !.hi = IF nd.op \in BoolOps THEN S ELSE NONE]
      [] OTHER -> Unknown

ShapeValid(sh) == \A k \in DOMAIN sh : sh[k] >= 0
BroadcastJudge(a, b) ==
    IF a = b /\ ~IsDyn(a) THEN "ok"
    ELSE IF IsDyn(a) /\ IsDyn(b) THEN "no"
    ELSE IF IsDyn(a) THEN (Must(StaticSize(b) = 1 /\ Len(b) <= Len(a)))
    ELSE IF IsDyn(b) THEN (Must(StaticSize(a) = 1 /\ Len(a) <= Len(b)))
    ELSE IF StaticSize(a) # 1 /\ StaticSize(b) # 1 THEN "no"
    ELSE IF StaticSize(b) = 1 /\ Len(b) <= Len(a) THEN "ok"
    ELSE IF StaticSize(a) = 1 /\ Len(a) <= Len(b) THEN "ok"
    ELSE "any"

NonZero(i) == IF i.lo = NONE \/ i.hi = NONE \/ i.lo > i.hi THEN "any" ELSE Must(i.lo > 0 \/ i.hi < 0)
\* an index array with values in 0..n-1
IndexJudge(i, st, n) ==
    IF i.lo # NONE /\ i.hi # NONE /\ i.lo > i.hi THEN (IF Len(st) <= 1 THEN "any" ELSE "no")      \* never has a value
    ELSE All3({IF i.int = 2 THEN "any" ELSE Must(i.int = 1),
          IF i.lo = NONE THEN "any" ELSE Must(i.lo >= 0),
          IF i.hi = NONE \/ n = NONE THEN "any" ELSE Must(i.hi < n)} \cup {IF Len(st) <= 1 THEN "ok" ELSE "no"})

\* integers and slices on the axes of an array
BasicJudge(base, idx, cont) ==
    IF Len(idx) # Len(base) THEN "no"
    ELSE All3({ IF idx[k][1] = 0
                THEN (IF base[k] < 0 THEN "no" ELSE Must(-base[k] <= idx[k][2] /\ idx[k][2] < base[k]))
                ELSE (IF idx[k][1] # 1 THEN "no" ELSE Must(idx[k][4] = NONE \/ idx[k][4] >= 1))
                : k \in DOMAIN idx }
              \cup {IF cont = 1 THEN "ok" ELSE "any"}
              \cup {IF IsDyn(base) /\ \E k \in DOMAIN idx : k > 1 /\ idx[k][1] = 0 THEN "any" ELSE "ok"}
              \cup {IF base = <<>> THEN "any" ELSE "ok"}
              \cup {IF ~IsDyn(base) /\ (\A k \in DOMAIN idx : idx[k][1] = 1 => SliceStep(<<idx[k][2], idx[k][3], idx[k][4]>>) >= 1) /\
                       SizeOf(BasicShape(base, idx)) = 0 THEN "any" ELSE "ok"})
AdvancedJudge(base, idx, pst, info, brows, S) ==      \* pst, info: of the index arrays
    LET A == AdvArrayAxes(idx)
        nth(k) == Cardinality({x \in A : x <= k})
    IN
    IF Len(idx) # Len(base) THEN "no"
    ELSE IF A = {} \/ (\E k \in DOMAIN idx : idx[k][1] \notin {1, 2} \/ (idx[k][1] = 1 /\ idx[k] # FullSlice)) THEN "no"
    ELSE All3({ IndexJudge(info[nth(k)], pst[nth(k)], IF base[k] < 0 THEN (IF brows = NONE THEN NONE ELSE brows * S) ELSE base[k] * S) : k \in A }
              \cup {IF \A k \in DOMAIN pst : pst[k] = pst[1] THEN "ok" ELSE "no"}
              \* combinations with dynamic arrays are supported in part only
              \cup {IF IsDyn(base) \/ IsDyn(pst[1]) THEN (IF Len(base) = 1 THEN (IF IsDyn(base) /\ IsDyn(pst[1]) THEN "any" ELSE "ok") ELSE "any") ELSE "ok"}
              \cup {IF ~IsDyn(base) /\ SizeOf(base) = 0 THEN "any" ELSE "ok"})

\* nd's operands are g's nodes; the caller supplies their static shapes and infos
Judge(nd, pst, info, S) ==
    CASE nd.op = "Constant" -> "ok"
      [] nd.op = "Integer" ->
            IF ~ShapeValid(nd.sh) \/ (nd.lb # NONE /\ nd.ub # NONE /\ nd.lb > nd.ub) THEN "no"
            ELSE IF nd.lb # NONE /\ nd.ub = NONE THEN "ok"
            ELSE IF nd.lb = NONE /\ nd.ub # NONE /\ nd.ub < 0 THEN "no" ELSE "ok"
      [] nd.op = "Binary" -> Must(ShapeValid(nd.sh))
      [] nd.op \in {"List", "Set"} -> Must(nd.n >= 0 /\ nd.mn >= 0 /\ nd.mn <= nd.mx /\ nd.mx <= nd.n)
      [] nd.op \in {"DisjointBitSets", "DisjointLists"} -> IF nd.n < 0 \/ nd.k < 0 THEN "no" ELSE IF nd.k = 0 THEN "any" ELSE "ok"
      [] nd.op \in OutputOps -> "any"
      [] nd.op \in {"Dyn", "Same", "Dead"} -> "any"
      [] nd.op = "SquareRoot" -> IF info[1].lo = NONE THEN "any" ELSE Must(info[1].lo >= 0)
      [] nd.op \in UnaryOps -> "ok"
      [] nd.op \in BinaryOps ->
            All3({BroadcastJudge(pst[1], pst[2])} \cup (IF nd.op = "Divide" THEN {NonZero(info[2])} ELSE {}))
      [] nd.op \in NaryOps ->
            Must(pst # <<>> /\ \A k \in DOMAIN pst : ~IsDyn(pst[k]) /\ pst[k] = pst[1])
      [] nd.op \in {"Max", "Min"} ->
            IF nd.hi = 1 THEN "ok" ELSE IF IsDyn(pst[1]) \/ SizeOf(pst[1]) = 0 THEN "no" ELSE "ok"
      [] nd.op \in ReduceOps -> "ok"
      [] nd.op = "PartialSum" ->
            IF IsDyn(pst[1]) \/ nd.ax < 0 \/ nd.ax >= Len(pst[1]) THEN "no"
            ELSE IF SizeOf(pst[1]) = 0 THEN "any" ELSE "ok"
      [] nd.op = "Where" ->
            IF pst[2] # pst[3] THEN "no"
            ELSE IF StaticSize(pst[1]) = 1 THEN (IF IsDyn(pst[2]) THEN "any" ELSE "ok")
            ELSE IF IsDyn(pst[1]) \/ IsDyn(pst[2]) THEN "no"
            ELSE Must(pst[1] = pst[2])
      [] nd.op \in {"Size"} -> "ok"
      [] nd.op = "Reshape" ->
            LET neg == {k \in DOMAIN nd.sh : nd.sh[k] < 0}
                other == ProdSeq(SelectSeq(nd.sh, LAMBDA d : d >= 0))
                n == SizeOf(pst[1])
            IN
            IF IsDyn(pst[1]) THEN "no"
            ELSE IF Cardinality(neg) > 1 \/ \E k \in neg : nd.sh[k] # -1 THEN "no"
            ELSE IF neg = {} /\ other # n THEN "no"
            ELSE IF neg # {} /\ other = 0 THEN "any"
            ELSE IF neg # {} /\ n % other # 0 THEN "no"
            ELSE IF n = 0 THEN "any"
            ELSE IF info[1].cont = 1 THEN "ok" ELSE IF info[1].cont = 0 THEN "no" ELSE "any"
      [] nd.op = "Concatenate" ->
            Must(/\ pst # <<>> /\ nd.ax >= 0 /\ nd.ax < Len(pst[1])
                 /\ \A k \in DOMAIN pst :
                        /\ ~IsDyn(pst[k])
                        /\ Len(pst[k]) = Len(pst[1])
                        /\ \A x \in DOMAIN pst[1] : x # nd.ax + 1 => pst[k][x] = pst[1][x])
      [] nd.op = "Permutation" ->
            IF IsDyn(pst[1]) \/ pst[1] = <<>> \/ (Len(pst[1]) > 1 /\ pst[1][1] # pst[1][2]) THEN "no"
            ELSE IF IsDyn(pst[2]) \/ Len(pst[2]) # 1 \/ pst[2][1] # pst[1][1] THEN "no"
            ELSE IF \E k \in DOMAIN pst[1] : pst[1][k] # pst[1][1] THEN "any"
            ELSE IF nd.const = 0 THEN "no"
            ELSE IndexJudge(info[2], pst[2], pst[1][1] * S)
      [] nd.op = "BasicIndexing" -> BasicJudge(pst[1], nd.idx, info[1].cont)
      [] nd.op = "AdvancedIndexing" ->
            IF Len(pst) = 1 THEN "no"
            ELSE AdvancedJudge(pst[1], nd.idx, Tail(pst), Tail(info), info[1].rows, S)
      [] nd.op = "GetItem" ->
            LET ix == PadIdx(nd.idx, Len(pst[1]))
                A == {k \in DOMAIN ix : ix[k][1] = 2}
                junk == \E k \in DOMAIN ix : ix[k][1] \notin {0, 1, 2}
                bi == [k \in DOMAIN ix |-> IF ix[k][1] = 2 THEN FullSlice ELSE ix[k]]
                plain == \A k \in DOMAIN ix : ix[k] = FullSlice \/ ix[k][1] = 2
                keep == SelectSeq([k \in DOMAIN ix |-> k], LAMBDA k : ix[k][1] # 0)
                ai == [j \in DOMAIN keep |-> IF ix[keep[j]][1] = 2 THEN ix[keep[j]] ELSE FullSlice]
                bj == BasicJudge(pst[1], bi, info[1].cont)
            IN
            IF Len(nd.idx) > Len(pst[1]) \/ junk THEN "no"
            ELSE IF A = {} THEN bj
            ELSE IF plain THEN AdvancedJudge(pst[1], ix, Tail(pst), Tail(info), info[1].rows, S)
            ELSE IF bj = "no" THEN "no"
            ELSE All3({bj, AdvancedJudge(BasicShape(pst[1], bi), ai, Tail(pst), Tail(info), NONE, S)})
      [] nd.op = "QuadraticModel" ->
            IF IsDyn(pst[1]) \/ Len(pst[1]) # 1 \/ pst[1][1] < 1 THEN "no"
            ELSE IF "bad" \in DOMAIN nd /\ nd.bad = 1 THEN "no" ELSE "ok"
=============================================================================

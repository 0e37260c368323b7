------------------------------ MODULE NdArray ------------------------------
(* N-dimensional arrays as the library sees them: a shape and the elements  *)
(* in C order.  Positions and axes are 0-based (as in the code); TLA+       *)
(* sequences are 1-based.  Numbers are integers scaled by a common factor S *)
(* (see Ops).                                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NONE == 2147483647            \* an absent slice member / bound
INF  == 2000000000            \* logged values are clamped to +-INF
NANV == 2000000001            \* logged NaN

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
AbsI(a)    == IF a < 0 THEN -a ELSE a

ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
RangeOf(s) == {s[k] : k \in DOMAIN s}
Distinct(s) == Cardinality(RangeOf(s)) = Len(s)
Iota(n) == [k \in 1..n |-> k - 1]
WithoutAt(s, k) == [j \in 1..(Len(s) - 1) |-> IF j < k THEN s[j] ELSE s[j + 1]]

SizeOf(sh) == ProdSeq(sh)
\* static shapes: the first axis of a dynamic array is -1
IsDyn(sh) == Len(sh) > 0 /\ sh[1] < 0
StaticSize(sh) == IF IsDyn(sh) THEN -1 ELSE SizeOf(sh)
RowSize(sh) == ProdSeq(Tail(sh))

\* C strides counted in elements
CStrides(sh) == [k \in 1..Len(sh) |-> ProdSeq(SubSeq(sh, k + 1, Len(sh)))]
Unravel(i, sh) ==
    LET st == CStrides(sh)
    IN  [k \in 1..Len(sh) |-> IF k = 1 THEN i \div st[1] ELSE (i \div st[k]) % sh[k]]
Ravel(ix, sh) ==
    LET st == CStrides(sh) IN SumSeq([k \in 1..Len(sh) |-> ix[k] * st[k]])

\* NumPy's broadcasting of two shapes; << -99 >> stands for "cannot be broadcast"
BadShape == << -99 >>
PadLeft(sh, n) == [k \in 1..n |-> IF k <= n - Len(sh) THEN 1 ELSE sh[k - (n - Len(sh))]]
BroadcastShape(a, b) ==
    LET n == MaxI(Len(a), Len(b))
        x == PadLeft(a, n)
        y == PadLeft(b, n)
    IN  IF \E k \in 1..n : x[k] # y[k] /\ x[k] # 1 /\ y[k] # 1
        THEN BadShape
        ELSE [k \in 1..n |-> IF x[k] = 1 THEN y[k] ELSE x[k]]

\* CPython's slice.indices(n): sl = <<start, stop, step>>, members may be NONE
SliceStep(sl) == IF sl[3] = NONE THEN 1 ELSE sl[3]
SliceFit(sl, n) ==
    LET step  == SliceStep(sl)
        lower == IF step < 0 THEN -1 ELSE 0
        upper == IF step < 0 THEN n - 1 ELSE n
        clip(x) == IF x < 0 THEN MaxI(x + n, lower) ELSE MinI(x, upper)
        start == IF sl[1] = NONE THEN (IF step < 0 THEN upper ELSE lower) ELSE clip(sl[1])
        stop  == IF sl[2] = NONE THEN (IF step < 0 THEN lower ELSE upper) ELSE clip(sl[2])
    IN  <<start, stop, step>>
FittedLen(f) ==
    IF f[3] > 0 THEN (IF f[1] < f[2] THEN (f[2] - f[1] - 1) \div f[3] + 1 ELSE 0)
                ELSE (IF f[2] < f[1] THEN (f[1] - f[2] - 1) \div (-f[3]) + 1 ELSE 0)
SliceLen(sl, n) == FittedLen(SliceFit(sl, n))
\* the positions a slice selects, in order
SliceIdx(sl, n) ==
    LET f == SliceFit(sl, n) IN [k \in 1..FittedLen(f) |-> f[1] + (k - 1) * f[3]]

\* Gather: out has shape sh and its element at multi-index ix is src.v at From(ix)
Gather(src, sh, From(_)) ==
    [sh |-> sh,
     v |-> [j \in 1..SizeOf(sh) |-> src.v[Ravel(From(Unravel(j - 1, sh)), src.sh) + 1]]]
=============================================================================

------------------------------- MODULE Utils -------------------------------
(* Definitions of the array utilities: slices, broadcasting, index arithmetic, diffs, fractions,   *)
(* and iterators as positions in the C-order sequence of an array's elements.                      *)
EXTENDS NdArray


(* ---- slices: the indices range(start, stop, step) selects in a sequence of n elements ---- *)
\* by definition: begin at the first index, go on by step while within the bounds and the sequence
Defaulted(o, d) == IF o = NONE THEN d ELSE o
Norm(i, n) == IF i < 0 THEN i + n ELSE i
SliceSet(o, n) ==
    LET st == Defaulted(o[3], 1)
        lo == IF o[1] = NONE THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE Norm(o[1], n)
        hi == IF o[2] = NONE THEN (IF st > 0 THEN n ELSE -1) ELSE Norm(o[2], n)
        \* the first index within the sequence that the slice can take
        first == IF st > 0 THEN (IF lo < 0 THEN 0 ELSE lo) ELSE (IF lo > n - 1 THEN n - 1 ELSE lo)
    IN  {i \in 0..(n - 1) : IF st > 0 THEN i >= first /\ i < hi /\ (i - first) % st = 0
                            ELSE i <= first /\ i > hi /\ (first - i) % (-st) = 0}
\* the indices of a fitted slice (f = start, stop, step), in order
RECURSIVE Walk(_, _, _, _)
Walk(i, stop, st, n) ==
    IF n = 0 THEN <<>>          \* cut off
    ELSE IF (st > 0 /\ i < stop) \/ (st < 0 /\ i > stop) THEN <<i>> \o Walk(i + st, stop, st, n - 1) ELSE <<>>
SliceOK(o, n, r) ==
    LET X == SliceSet(o, n)
        w == Walk(r[1], r[2], r[3], n + 1)
    IN  /\ r[3] = Defaulted(o[3], 1)
        /\ Len(w) = Cardinality(X) /\ RangeOf(w) = X
        /\ r[4] = Len(w)
        /\ r[5] = 1
SliceRefused(o, n) == o[3] = 0 \/ n < 0

(* ---- broadcasting ---- *)
FromEnd(s, k) == IF k > Len(s) THEN 1 ELSE s[Len(s) - k + 1]
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Compatible(a, b) == \A k \in 1..MaxLen(a, b) : FromEnd(a, k) = FromEnd(b, k) \/ FromEnd(a, k) = 1 \/ FromEnd(b, k) = 1
BShape(a, b) ==
    LET n == MaxLen(a, b) IN
    [j \in 1..n |-> LET k == n - j + 1 IN IF FromEnd(a, k) = 1 THEN FromEnd(b, k) ELSE FromEnd(a, k)]

(* ---- flat and multi-dimensional indices ---- *)
RECURSIVE FlatOf(_, _, _)
FlatOf(sh, x, k) == IF k = 0 THEN 0 ELSE FlatOf(sh, x, k - 1) * sh[k] + x[k]
Flat(sh, x) == FlatOf(sh, x, Len(sh))
IndexOK(sh, x) == Len(x) = Len(sh) /\ \A k \in DOMAIN x : 0 <= x[k] /\ x[k] < sh[k]

(* ---- diffs: sequences of <<index, old, new>>, NANV where there is nothing ---- *)
\* what a diff does to one index: the first old and the last new value
OfIndex(d, i) == SelectSeq(d, LAMBDA u : u[1] = i)
Effect(d, i) == LET u == OfIndex(d, i) IN IF u = <<>> THEN <<>> ELSE <<u[1][2], u[Len(u)][3]>>
DedupOK(d, r) ==
    LET I == {d[k][1] : k \in DOMAIN d}
        noop(i) == Effect(d, i)[1] = Effect(d, i)[2]
    IN  /\ \A k \in DOMAIN r : r[k][1] \in I /\ ~noop(r[k][1]) /\ <<r[k][2], r[k][3]>> = Effect(d, r[k][1])
        /\ \A i \in I : noop(i) \/ \E k \in DOMAIN r : r[k][1] = i
        /\ \A k \in DOMAIN r : \A j \in DOMAIN r : j < k => r[j][1] < r[k][1]

\* one update next to another
NoneOr(v, d) == IF v = NANV THEN d ELSE v
UpdateSeen(u, w) ==
    LET bit(x) == IF x THEN 1 ELSE 0 IN
    <<bit(u[2] = NANV), bit(u[3] = NANV), bit(u[2] = NANV /\ u[3] = NANV), bit(u[2] = u[3] /\ u[2] # NANV),
      NoneOr(u[2], 77), NoneOr(u[3], 77), bit(u[1] < w[1]), bit(u = w)>>

(* ---- compensated sums: 2^54 and small terms x; the rounding error does not grow with their number ---- *)
KahanOK(x, r) == AbsI(r[1] - SumSeq(x)) <= 6 /\ r[2] = 1

(* ---- fractions ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(n, d) ==
    LET g == Gcd(AbsI(n), AbsI(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<(s * (IF n < 0 THEN -(AbsI(n) \div g) ELSE n \div g)), AbsI(d) \div g>>
ApplyF(f, op) ==
    CASE op[1] \in {"m", "M"} -> Reduced(f[1] * op[2], f[2])
      [] op[1] \in {"d", "D"} -> Reduced(f[1], f[2] * op[2])
      [] op[1] = "f" -> Reduced(f[1] * op[2], f[2] * op[3])
Trunc(f) == IF f[1] < 0 THEN -(AbsI(f[1]) \div f[2]) ELSE f[1] \div f[2]
\* what is observed of a fraction: its parts, both conversions, comparison with op's operand
SeenF(f, op) == <<f[1], f[2], Trunc(f), 1, IF (IF op[1] = "f" THEN f = Reduced(op[2], op[3]) ELSE f = <<op[2], 1>>) THEN 1 ELSE 0>>
RECURSIVE Fractions(_, _)
Fractions(f, ops) == IF ops = <<>> THEN <<f>> ELSE <<f>> \o Fractions(ApplyF(f, Head(ops)), Tail(ops))

(* ---- iterators: position p of a memory m ---- *)
Count(m) == IF m.kind = "strided" THEN SizeOf(m.shape) ELSE m.n
RECURSIVE Offset(_, _, _, _)
Offset(sh, str, p, k) == IF k = 0 THEN 0 ELSE Offset(sh, str, p \div sh[k], k - 1) + (p % sh[k]) * str[k]
Deref(m, p) ==
    IF m.kind = "strided" THEN m.base + Offset(m.shape, m.strides, p, Len(m.shape))
    ELSE IF m.kind = "masked" /\ m.mask[p + 1] # 0 THEN -7
    ELSE m.base + p
\* registers q (1-based) after an operation
Move(q, op, a, b, k) ==
    CASE op = "inc" -> [q EXCEPT ![a] = @ + 1]
      [] op = "dec" -> [q EXCEPT ![a] = @ - 1]
      [] op = "pinc" -> [q EXCEPT ![a] = @ + 1, ![b] = q[a]]
      [] op = "pdec" -> [q EXCEPT ![a] = @ - 1, ![b] = q[a]]
      [] op = "add" -> [q EXCEPT ![a] = @ + k]
      [] op = "sub" -> [q EXCEPT ![a] = @ - k]
      [] op \in {"plus", "rplus"} -> [q EXCEPT ![b] = q[a] + k]
      [] op = "minus" -> [q EXCEPT ![b] = q[a] - k]
      [] op = "copy" -> [q EXCEPT ![b] = q[a]]
      [] op = "begin" -> [q EXCEPT ![a] = 0]
      [] OTHER -> q
B(x) == IF x THEN 1 ELSE 0
Result(m, q, op, a, b, k) ==
    CASE op = "at" -> <<Deref(m, q[a] + k)>>
      [] op = "dist" -> <<q[a] - q[b], q[b] - q[a]>>
      [] op = "cmp" -> <<B(q[a] = q[b]), B(q[a] # q[b]), B(q[a] < q[b]), B(q[a] <= q[b]), B(q[a] > q[b]), B(q[a] >= q[b])>>
      [] op = "walk" -> [j \in 1..k |-> Deref(m, q[a] + j - 1)]
      [] op = "back" -> [j \in 1..k |-> Deref(m, q[a] - j)]
      [] OTHER -> <<>>
=============================================================================

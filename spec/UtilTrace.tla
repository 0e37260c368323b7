----------------------------- MODULE UtilTrace -----------------------------
(* Validates recorded uses of the array utilities.  m is the memory iterated over, q the positions *)
(* of three iterators.                                                                             *)
EXTENDS Utils, Json, TLC

CONSTANT Prop
T == ndJsonDeserialize("trace.ndjson")
VARIABLES sc, l, m, q, err
vars == <<sc, l, m, q, err>>

Steps == T[sc].steps
Check(name, ok) == IF ok THEN {} ELSE {<<name, -1>>}
Refusal(name, no, c, ok) ==
    IF no THEN Check(name \o " did not raise", c.exc = 1)
    ELSE IF c.exc = 1 THEN {<<name \o " raised", -1>>} ELSE Check(name, ok)

Pure(c) ==
    CASE c.e = "slice" -> Refusal("slice", SliceRefused(c.o, c.n), c, c.exc = 0 /\ SliceOK(c.o, c.n, c.r))
      [] c.e = "bshape" -> Refusal("broadcast_shape", ~Compatible(c.a, c.b), c, c.r = BShape(c.a, c.b))
      [] c.e = "unravel" -> Refusal("unravel_index", FALSE, c, IndexOK(c.sh, c.r) /\ Flat(c.sh, c.r) = c.x)
      [] c.e = "ravel" -> Refusal("ravel_multi_index", FALSE, c, c.r = <<Flat(c.sh, c.x)>>)
      [] c.e = "integer" -> Refusal("is_integer", FALSE, c, c.r = <<B(c.v % c.S = 0)>>)
      [] c.e = "dedup" -> Refusal("deduplicate_diff", FALSE, c, DedupOK(c.d, c.r))
      [] c.e = "update" -> Refusal("Update", FALSE, c, c.r = UpdateSeen(c.u, c.w))
      [] c.e = "kahan" -> Refusal("double_kahan", FALSE, c, KahanOK(c.x, c.r))
      [] c.e = "frac" ->
            LET zero == c.den = 0 \/ \E k \in DOMAIN c.ops : (c.ops[k][1] \in {"d", "D"} /\ c.ops[k][2] = 0) \/ (c.ops[k][1] = "f" /\ c.ops[k][3] = 0)
                fs == Fractions(Reduced(c.num, IF c.den = NONE THEN 1 ELSE c.den), c.ops)
            IN  IF zero THEN Check("fraction did not raise", c.exc = 1)
                ELSE Refusal("fraction", FALSE, c, c.r = [k \in DOMAIN fs |-> SeenF(fs[k], IF k = 1 THEN <<"m", c.num, 0>> ELSE c.ops[k - 1])])
      [] c.e = "crash" -> {<<"crash", -1>>}

IsIter(c) == c.e \in {"mem", "it"}
Seen(mm, qq, c) == [j \in 1..3 |-> IF 0 <= qq[j] /\ qq[j] < Count(mm) THEN Deref(mm, qq[j]) ELSE -1]

Init0 == [kind |-> "none"]
TraceInit == sc \in 1..Len(T) /\ l = 0 /\ m = Init0 /\ q = <<0, 0, 0>> /\ err = {}
Do(c) ==
    IF c.e = "mem" THEN m' = [kind |-> c.kind, n |-> c.n, base |-> c.base, shape |-> c.sh, strides |-> c.st, mask |-> c.mask] /\ q' = <<0, 0, 0>> /\ err' = {}
    ELSE IF c.e = "it" THEN
        /\ m' = m
        /\ q' = Move(q, c.op, c.a + 1, c.b + 1, c.k)
        /\ err' = Check("result of " \o c.op, c.exc = 0 /\ c.r = Result(m, q, c.op, c.a + 1, c.b + 1, c.k))
                  \cup (IF c.exc = 0 THEN Check("element after " \o c.op, c.vals = Seen(m, q', c)) ELSE {})
    ELSE m' = m /\ q' = q /\ err' = Pure(c)
TraceNext ==
    /\ l < Len(Steps)
    /\ err = {}
    /\ l' = l + 1
    /\ sc' = sc
    /\ Do(Steps[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == IF err = {} THEN TRUE ELSE PrintT(<<"REJECT", T[sc].id, l, IF l > 0 THEN Steps[l].e ELSE "start", err>>) /\ FALSE
\* iterators never leave the array
InRange == m.kind = "none" \/ \A j \in 1..3 : 0 <= q[j] /\ q[j] <= Count(m)
=============================================================================

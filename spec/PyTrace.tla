------------------------------ MODULE PyTrace ------------------------------
(* Validates recorded uses of the Python package against PyModel.  Every      *)
(* scenario of trace.ndjson is one behaviour; err collects the clauses of     *)
(* property Prop that a step violates.                                        *)
EXTENDS PyModel, Json, TLC

CONSTANT Prop

T == ndJsonDeserialize("trace.ndjson")
VARIABLES sc, l, m, err
vars == <<sc, l, m, err>>

Sc == T[sc].S
Steps == T[sc].steps
Has(r, f) == f \in DOMAIN r
In(P) == Prop \in P
Check(P, name, ok) == IF In(P) /\ ~ok THEN {<<name, -1>>} ELSE {}
CheckN(P, name, i, ok) == IF In(P) /\ ~ok THEN {<<name, i - 1>>} ELSE {}
Raised(c) == c.exc # ""
\* the call must raise iff verdict # "" ("any": undetermined)
RaiseErr(P, verdict, c) ==
    IF verdict = "any" THEN {}
    ELSE Check(P, IF verdict = "" THEN "raised" ELSE "did not raise: " \o verdict, Raised(c) = (verdict # ""))

\* a value as observed, against a value of the specification
SameValue(o, e) == o.sh = e.sh /\ o.v = e.v /\ o.x = 0

\* symbols whose values stay on the grid
Exact(mm, i) == \A j \in Anc(mm, {i}) : mm.g[j].tol = 0

(* ---- structure ---- *)
Creation(X) == SetToSortSeq(X, LAMBDA a, b : a < b)
Minus1(s) == [k \in DOMAIN s |-> s[k] - 1]
CountIn(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SuccCount(mm, i, j) == Cardinality({k \in DOMAIN mm.g[j].p : mm.g[j].p[k] = i - 1})
OrderOK(mm, s) ==
    LET pos(i) == CHOOSE k \in DOMAIN s.ord : s.ord[k] = i - 1
        A == AliveSet(mm)
        nd == Cardinality(Decs(mm))
    IN  /\ \A k \in DOMAIN s.ord : s.ti[k] = k - 1
        /\ SubSeq(s.ord, 1, nd) = Minus1(Creation(Decs(mm)))
        /\ \A i \in A : \A p \in PredSet(mm.g, i) : pos(p) < pos(i)
\* the exported graph: an edge per use of a symbol, one from the objective to -1, one from each constraint to -2
NetworkOK(mm, s, A) ==
    LET uses(i, j) == SuccCount(mm, i, j)
        arcs(a, b) == Cardinality({k \in DOMAIN s.nxe : s.nxe[k] = <<a, b>>})
    IN  /\ RangeOf(s.nxn) = {i - 1 : i \in A} \cup (IF mm.obj > 0 THEN {-1} ELSE {}) \cup (IF mm.cons # <<>> THEN {-2} ELSE {})
        /\ Len(s.nxn) = Cardinality(RangeOf(s.nxn))
        /\ \A i \in A : /\ \A j \in A : arcs(i - 1, j - 1) = uses(i, j)
                        /\ arcs(i - 1, -1) = (IF mm.obj = i THEN 1 ELSE 0)
                        /\ arcs(i - 1, -2) = CountIn(mm.cons, i)
        /\ \A k \in DOMAIN s.nxe : s.nxe[k][1] >= 0 /\ s.nxe[k][2] >= -2
StructErr(P, mm, s) ==
    LET A == AliveSet(mm)
        perm == RangeOf(s.ord) = {i - 1 : i \in A} /\ Len(s.ord) = Cardinality(A)
    IN
    Check(P, "symbols", perm)
    \cup Check(P, "num_nodes", s.nn = Cardinality(A) /\ s.ns2 = s.nn)
    \cup Check(P, "num_edges", s.ne = SumSeq([i \in 1..Len(mm.g) |-> Len(mm.g[i].p)]))
    \cup Check(P, "num_decisions", s.nd = Cardinality(Decs(mm)))
    \cup Check(P, "num_constraints", s.nc = Len(mm.cons))
    \cup Check(P, "is_locked", (s.lk = 1) = Locked(mm))
    \cup Check(P, "states", s.ns = Len(mm.slots) /\ s.len = s.ns)
    \cup Check(P, "objective", s.obj = mm.obj - 1)
    \cup Check(P, "constraints", s.cons = Minus1(mm.cons))
    \cup Check(P, "decisions", s.decs = Minus1(Creation(Decs(mm))))
    \cup (IF perm /\ Locked(mm) THEN Check(P, "order", OrderOK(mm, s)) ELSE {})
    \cup (IF perm /\ ~Locked(mm)
          THEN Check(P, "index", \A k \in DOMAIN s.ord : s.ti[k] = -1 \/ IsDec(mm, s.ord[k] + 1)) ELSE {})
    \cup (IF perm /\ Has(s, "pre")
          THEN Check(P, "predecessors", \A k \in DOMAIN s.ord : s.pre[k] = mm.g[s.ord[k] + 1].p)
               \cup Check(P, "successors", \A k \in DOMAIN s.ord : \A j \in A :
                            CountIn(s.suc[k], j - 1) = SuccCount(mm, s.ord[k] + 1, j))
               \cup Check(P, "successors", \A k \in DOMAIN s.ord : Len(s.suc[k]) = SumSeq([j \in 1..Len(mm.g) |-> SuccCount(mm, s.ord[k] + 1, j)]))
               \cup Check(P, "to_networkx", NetworkOK(mm, s, A))
          ELSE {})
    \cup (IF Has(s, "exp") THEN Check(P, "expired", \A k \in DOMAIN s.exp : s.exp[k][2] = 0) ELSE {})

(* ---- parameters ---- *)
QuadTotal(nd, u, v) ==     \* accumulated coefficient of x_u x_v (u # v) or x_u^2
    SumSeq([k \in DOMAIN nd.quad |-> IF {nd.quad[k][1], nd.quad[k][2]} = {u, v} THEN nd.quad[k][3] ELSE 0])
QuadOK(mm, nd, d) ==
    LET n == Len(nd.lin)
        bin == LogicalNode(mm.g[nd.p[1] + 1], Sc)
    IN  /\ Len(d.lin) = n /\ Len(d.quad) = n
        /\ d.ni = Cardinality({{nd.quad[k][1], nd.quad[k][2]} : k \in {k \in DOMAIN nd.quad : nd.quad[k][1] # nd.quad[k][2]}})
        /\ \A u \in 1..n : \A v \in 1..n : u # v => d.quad[u][v] = QuadTotal(nd, u - 1, v - 1)
        /\ \A u \in 1..n :
              \/ bin # "yes" /\ d.lin[u] = nd.lin[u] /\ d.quad[u][u] = QuadTotal(nd, u - 1, u - 1)
              \* x^2 = x for a binary x
              \/ bin # "no" /\ d.lin[u] + d.quad[u][u] = nd.lin[u] + QuadTotal(nd, u - 1, u - 1)
\* strides (in bytes): C order for everything that owns its elements; a slice of such an array steps over it
StridesOK(mm, i, d) ==
    LET nd == mm.g[i] sh == mm.sh[i]
        view(x) == x.op \in {"BasicIndexing", "Same"} \/ (x.op = "GetItem" /\ Len(x.p) = 1)
        match(want) == \A k \in DOMAIN sh : sh[k] \in {0, 1} \/ d.str[k] = 8 * want[k]
    IN  /\ Len(d.str) = Len(sh)
        /\ IF ~view(nd) THEN match(CStrides(sh))
           ELSE IF nd.op # "Same" /\ ~view(mm.g[nd.p[1] + 1])
           THEN LET bs == CStrides(mm.sh[nd.p[1] + 1])
                    kept == SelectSeq([k \in 1..Len(bs) |-> k], LAMBDA k : k > Len(nd.idx) \/ nd.idx[k][1] = 1)
                    step(k) == IF k > Len(nd.idx) \/ nd.idx[k][4] = NONE THEN 1 ELSE nd.idx[k][4]
                IN  match([k \in DOMAIN kept |-> bs[kept[k]] * step(kept[k])])
           ELSE TRUE
ParamsOK(mm, i, d) ==
    LET nd == mm.g[i] sh == mm.sh[i] IN
    /\ d.t = nd.op \/ (nd.op = "GetItem" /\ d.t \in {"BasicIndexing", "AdvancedIndexing"})
    /\ nd.op \notin {"DisjointBitSets", "DisjointLists"} =>
          d.sh = sh /\ d.nd = Len(sh) /\ d.n = StaticSize(sh) /\ StridesOK(mm, i, d)
    \* the number of bytes of the largest state
    /\ CASE nd.op \in {"DisjointBitSets", "DisjointLists"} -> d.ssz = 0
         [] ~IsDyn(sh) -> d.ssz = 8 * StaticSize(sh)
         [] nd.op \in {"List", "Set"} -> d.ssz = 8 * nd.mx
         [] OTHER -> d.ssz >= 0
    /\ CASE nd.op = "Constant" -> d.v = nd.v
         [] nd.op = "Integer" -> d.lb = IntLb(nd) /\ d.ub = IntUb(nd)
         [] nd.op \in {"PartialSum", "Concatenate"} -> d.ax = <<nd.ax>>
         [] nd.op \in OutputOps -> d.j = nd.j
         [] nd.op \in {"DisjointBitSets", "DisjointLists"} -> d.k = nd.k
         [] nd.op = "QuadraticModel" -> QuadOK(mm, nd, d)
         [] OTHER -> TRUE

(* ---- identity ---- *)
\* built identically
RECURSIVE SameDef(_, _, _)
Fields(nd) == DOMAIN nd \ {"p", "f", "kw", "bare", "npint", "tol", "l", "nol", "form"}
SameDef(mm, a, b) ==
    \/ a = b
    \/ /\ ~IsDec(mm, a) /\ mm.g[a].op \notin OutputOps
       /\ mm.g[a].op = mm.g[b].op /\ Fields(mm.g[a]) = Fields(mm.g[b])
       /\ \A f \in Fields(mm.g[a]) : mm.g[a][f] = mm.g[b][f]
       /\ mm.sh[a] = mm.sh[b]
       /\ Len(mm.g[a].p) = Len(mm.g[b].p)
       /\ \A k \in DOMAIN mm.g[a].p : SameDef(mm, mm.g[a].p[k] + 1, mm.g[b].p[k] + 1)
\* two decisions that range over different sets of values
DomainDiffer(a, b) ==
    \/ a.op # b.op
    \/ a.op \notin {"DisjointBitSets", "DisjointLists"} /\ StaticShape(a, <<>>) # StaticShape(b, <<>>)
    \/ a.op = "Integer" /\ (IntLb(a) # IntLb(b) \/ IntUb(a) # IntUb(b))
    \/ a.op \in {"List", "Set", "DisjointBitSets", "DisjointLists"} /\ a.n # b.n
    \/ a.op \in {"List", "Set"} /\ (a.mn # b.mn \/ a.mx # b.mx)
    \/ a.op \in {"DisjointBitSets", "DisjointLists"} /\ a.k # b.k
\* which positions of the source an index expression takes, axis by axis
Taken(idx, sh) ==
    [k \in DOMAIN idx |-> IF idx[k][1] = 1 THEN SliceIdx(<<idx[k][2], idx[k][3], idx[k][4]>>, sh[k])
                          ELSE <<IF idx[k][2] < 0 THEN idx[k][2] + sh[k] ELSE idx[k][2]>>]
TakeDiffer(a, b, sh) ==
    LET ta == Taken(a, sh) tb == Taken(b, sh)
    IN  ta # tb /\ (\A k \in DOMAIN ta : ta[k] # <<>>) /\ (\A k \in DOMAIN tb : tb[k] # <<>>)
BasicDiffer(mm, a, b) ==
    LET src == mm.g[a].p[1] + 1
        sh == mm.sh[src]
        rows == IF ~IsDyn(sh) THEN {sh[1]}          \* numbers of rows that are possible for certain
                ELSE IF mm.g[src].op \in {"List", "Set"} THEN mm.g[src].mn..mm.g[src].mx ELSE {}
    IN  \E r \in rows : TakeDiffer(mm.g[a].idx, mm.g[b].idx, <<r>> \o Tail(sh))
Numbered(sh) == [sh |-> sh, v |-> [k \in 1..SizeOf(sh) |-> k]]
AdvancedDiffer(mm, a, b) ==
    LET src == mm.g[a].p[1] + 1
        sh == mm.sh[src]
        ix == Tail(mm.g[a].p)
        A(x) == AdvArrayAxes(mm.g[x].idx)
        vals == [k \in DOMAIN ix |-> [sh |-> mm.g[ix[k] + 1].sh, v |-> mm.g[ix[k] + 1].v]]
    IN  /\ A(a) # A(b) /\ ~IsDyn(sh)
        /\ IF \A k \in DOMAIN ix : mm.g[ix[k] + 1].op = "Constant"
           THEN EvAdvanced(mm.g[a], Numbered(sh), vals, Sc) # EvAdvanced(mm.g[b], Numbered(sh), vals, Sc)
           ELSE \A k \in DOMAIN ix : IsDec(mm, ix[k] + 1) /\ 0 \notin RangeOf(mm.sh[ix[k] + 1]) /\ \A q \in DOMAIN sh : sh[q] >= 2
QuadDiffer(mm, x, y) ==
    LET a == mm.g[x] b == mm.g[y] n == Len(a.lin)
        bin == LogicalNode(mm.g[a.p[1] + 1], Sc)
    IN  \/ \E u \in 1..n : \E v \in 1..n : u # v /\ QuadTotal(a, u - 1, v - 1) # QuadTotal(b, u - 1, v - 1)
        \/ \E u \in 1..n : a.lin[u] + QuadTotal(a, u - 1, u - 1) # b.lin[u] + QuadTotal(b, u - 1, u - 1)
        \/ bin = "no" /\ a.lin # b.lin
\* same type, same predecessors, but a parameter makes them something else
ParamsDiffer(mm, a, b) ==
    LET op == mm.g[a].op IN
    CASE op = "Constant" -> mm.g[a].v # mm.g[b].v
      [] op = "PartialSum" -> mm.g[a].ax # mm.g[b].ax
      [] op \in OutputOps -> mm.g[a].j # mm.g[b].j
      [] op = "QuadraticModel" -> QuadDiffer(mm, a, b)
      [] op = "BasicIndexing" -> BasicDiffer(mm, a, b)
      [] op = "AdvancedIndexing" -> AdvancedDiffer(mm, a, b)
      [] IsDec(mm, a) -> DomainDiffer(mm.g[a], mm.g[b])
      [] OTHER -> FALSE
RECURSIVE Differ(_, _, _)
Differ(mm, a, b) ==
    /\ a # b
    /\ \/ mm.g[a].op # mm.g[b].op
       \/ mm.sh[a] # mm.sh[b]
       \/ Len(mm.g[a].p) = Len(mm.g[b].p) /\ (\A k \in DOMAIN mm.g[a].p : SameDef(mm, mm.g[a].p[k] + 1, mm.g[b].p[k] + 1)) /\ ParamsDiffer(mm, a, b)
       \/ (mm.g[a].op \in OutputOps \/ IsDec(mm, a)) /\ ParamsDiffer(mm, a, b)
       \/ Len(mm.g[a].p) # Len(mm.g[b].p)
       \/ \E k \in DOMAIN mm.g[a].p : Differ(mm, mm.g[a].p[k] + 1, mm.g[b].p[k] + 1)
EqErr(P, mm, a, b, c) ==
    Check(P, "equals", (SameDef(mm, a, b) => c.eq = 1) /\ (Differ(mm, a, b) => c.eq = 0) /\ c.eq = c.eq2)
    \cup Check(P, "maybe_equals", (c.may = 0 => c.eq = 0) /\ (c.may = 2 => c.eq = 1) /\ (c.may2 = 0 => c.eq = 0) /\ (c.may2 = 2 => c.eq = 1))
    \cup Check(P, "shares_memory", (c.sm = 1) = (a = b) /\ (c.sm2 = 1) = (a = b))
    \cup Check(P, "id", (c.idq = 1) = (a = b))
ViewErr(P, mm, w, c) ==
    LET i == w.id + 1 IN
    IF w.id < 0 \/ i \notin AliveSet(mm) THEN Check(P, "view: unknown symbol", FALSE)
    ELSE CheckN(P, "view: parameters", i, ParamsOK(mm, i, w))
         \cup CheckN(P, "view: identity", i, w.eq = 1 /\ w.sm = 1 /\ w.may = 2 /\ w.mod = 1 /\ w.rep = 1)
         \cup CheckN(P, "view: " \o w.kd, i,
                CASE w.kd = "objective" -> i = mm.obj
                  [] w.kd = "constraints" -> w.at < Len(mm.cons) /\ mm.cons[w.at + 1] = i
                  [] w.kd = "decisions" -> Creation(Decs(mm))[w.at + 1] = i
                  [] w.kd = "pred" -> mm.g[w.of + 1].p[w.at + 1] = i - 1
                  [] w.kd = "succ" -> SuccCount(mm, w.of + 1, i) > 0
                  [] OTHER -> TRUE)
ViewsErr(P, mm, c) ==
    UNION {ViewErr(P, mm, c.vw[k], c) : k \in DOMAIN c.vw}
    \cup LET n(kind) == Cardinality({k \in DOMAIN c.vw : c.vw[k].kd = kind})
             edges == SumSeq([i \in 1..Len(mm.g) |-> Len(mm.g[i].p)])
         IN  Check(P, "views", /\ n("symbols") = Cardinality(AliveSet(mm)) /\ n("decisions") = Cardinality(Decs(mm))
                               /\ n("constraints") = Len(mm.cons) /\ n("objective") = (IF mm.obj = 0 THEN 0 ELSE 1)
                               /\ n("pred") = edges /\ n("succ") = edges)
             \cup Check(P, "state_size of the model",
                     LET sizes(kind) == SumSeq([k \in DOMAIN c.vw |-> IF c.vw[k].kd = kind THEN c.vw[k].ssz ELSE 0])
                     IN  c.msz = sizes("symbols") /\ c.dsz = sizes("decisions"))

(* ---- serialization ---- *)
\* a dump of a model against m restricted to the first symbols of the order ord (ids)
PosIn(ord, id) == CHOOSE k \in DOMAIN ord : ord[k] = id
DumpErr(P, mm, ord, d, ns) ==
    LET K == Len(ord)
        in(id) == \E k \in 1..K : ord[k] = id
    IN
    IF Len(d.sym) # K THEN Check(P, "file: number of symbols", FALSE)
    ELSE
    Check(P, "file: parameters", \A k \in 1..K : ParamsOK(mm, ord[k] + 1, d.sym[k]))
    \cup Check(P, "file: edges", \A k \in 1..K :
            /\ Len(d.pre[k]) = Len(mm.g[ord[k] + 1].p)
            /\ \A j \in DOMAIN d.pre[k] : ord[d.pre[k][j] + 1] = mm.g[ord[k] + 1].p[j])
    \cup Check(P, "file: objective", d.obj = (IF mm.obj > 0 /\ in(mm.obj - 1) THEN PosIn(ord, mm.obj - 1) - 1 ELSE -1))
    \cup Check(P, "file: constraints",
            LET cs == SelectSeq(Minus1(mm.cons), in)
            IN  Len(d.cons) = Len(cs) /\ \A k \in DOMAIN cs : ord[d.cons[k] + 1] = cs[k])
    \cup Check(P, "file: decisions", d.nd = Cardinality(Decs(mm)) /\ [k \in DOMAIN d.decs |-> ord[d.decs[k] + 1]] = Minus1(Creation(Decs(mm))))
    \cup Check(P, "file: number of states", d.ns = ns)
\* states go into a model with the same decisions only: c.alt lists decisions of the other model that
\* were changed, <<index, definition>>; c.lost: it has fewer decisions
OtherErr(P, mm, c) ==
    LET mismatch == c.lost = 1 \/ \E k \in DOMAIN c.alt : DomainDiffer(mm.g[c.alt[k][1] + 1], c.alt[k][2])
    IN  IF mismatch THEN Check(P, "file: states of a model with other decisions", Raised(c) /\ c.ns = c.pre)
        ELSE Check(P, "file: raised", ~Raised(c))
FileErr(P, mm, c) ==
    LET states == c.how \in {"states", "statesname"}
        twin == c.load = "states"
        only == (c.only = 1 \/ states) /\ ~twin
        ns == IF states THEN Len(mm.slots) ELSE IF c.max = NONE THEN 0 ELSE MaxI(0, MinI(c.max, Len(mm.slots)))
        full == IF twin THEN c.ord2 ELSE c.ord
        ord == IF only THEN SubSeq(full, 1, Cardinality(Decs(mm))) ELSE full
        decOrder == SelectSeq(ord, LAMBDA i : IsDec(mm, i + 1))
        Vals(s) == Values(mm, s, Sc)
        \* (a twin may hold symbols that the model itself no longer has)
        alive == AliveSet(mm)
        ValsOK(vs) == \A s \in 1..ns : LET e == Vals(s - 1) IN
                        \A k \in DOMAIN ord : Has(vs[s][k], "v") /\ (ord[k] + 1) \in alive /\ Exact(mm, ord[k] + 1) => SameValue(vs[s][k], e[ord[k] + 1])
    IN
    IF Has(c, "fail") THEN Check(P \cup {"C10"}, "file: lock", c.lk = 1) \cup Check(P, "file: failed write", Raised(c) = (c.failed = 1))
    ELSE IF c.load = "other" THEN OtherErr(P, mm, c)
    ELSE IF Raised(c) THEN Check(P, "file: raised", FALSE)
    ELSE
    Check(P, "file: lock", c.lk = 1 /\ c.isM = 1)
    \cup Check(P, "file: order", RangeOf(c.ord) = {i - 1 : i \in AliveSet(mm)})
    \cup (IF twin THEN Check(P, "file: number of states", c.new.ns = ns) ELSE DumpErr(P, mm, ord, c.new, ns))
    \cup (IF c.new.ns # ns THEN {}
          ELSE Check(P, "file: set states", \A s \in 1..ns : \A k \in DOMAIN decOrder :
                    MayHave(mm, s - 1, decOrder[k] + 1) \/ (c.hs[s][k] = 1) = HasState(mm, s - 1, decOrder[k] + 1))
               \cup (IF Len(c.new.sym) # Len(ord) THEN {} ELSE Check(P, "file: values", ValsOK(c.vals))))
    \cup (IF Has(c, "new2") THEN DumpErr(P, mm, ord, c.new2, ns)
                                 \cup (IF c.new2.ns = ns /\ Len(c.new2.sym) = Len(ord) THEN Check(P, "file: values again", ValsOK(c.vals2)) ELSE {})
          ELSE {})
    \cup (IF Has(c, "probes")
          THEN Check(P, "file: domain", \A k \in DOMAIN c.probe :
                    (c.probes[k] = 1) = InDomain(mm.g[c.probe[k][1] + 1], c.probe[k][2], Sc))
          ELSE {})

(* ---- values of expressions ---- *)
ExprErr(P, mm, c) ==
    LET seen(i) == Has(c.vals[i], "v")
        good == {i \in 1..Len(mm.g) : seen(i) /\ Functional(mm.g[i]) /\ Alive(mm.g, i) /\
                    \A k \in DOMAIN mm.g[i].p : seen(mm.g[i].p[k] + 1)}
        args(i) == [k \in DOMAIN mm.g[i].p |-> c.vals[mm.g[i].p[k] + 1]]
        st(i) == [k \in DOMAIN mm.g[i].p |-> mm.sh[mm.g[i].p[k] + 1]]
    IN  UNION {CheckN(P, "value", i, NodeOK(mm.g[i], args(i), st(i), c.vals[i], Sc)) : i \in good}

(* ---- steps ---- *)
\* each yields the set of errors and binds m'
StructOf(P, mm, c) == IF Has(c, "st") THEN StructErr(P, mm, c.st) ELSE {}
STRUCT == {"C10", "C11", "C14", "C17"}

\* a call on a symbol that was refused, or removed, is no call of the package
OnSymbols == {"min", "con", "read", "has", "reset", "set", "drop", "hold", "eq", "eqx"}
OnDead(c) ==
    /\ c.e \in OnSymbols
    /\ \E f \in (IF c.e \in {"eq", "eqx"} THEN {"a", "b"} ELSE IF c.e = "set" THEN {"d"} ELSE {"n"}) \cap DOMAIN c :
          c[f] >= 0 /\ ~Alive(m.g, c[f] + 1)
\* every future but the last one has been asked exactly once by the time another one replaces it
FutureErr(c) ==
    IF Has(c, "fc")
    THEN Check({"C12"}, "result hook", c.fa = 1 /\ \A k \in DOMAIN c.fc : c.fc[k] <= 1 /\ (k < Len(c.fc) => c.fc[k] = 1))
    ELSE {}
\* a symbol that takes other values than 0 and 1 is no constraint
OnlyLogical(mm, s) == LET v == Values(mm, s, Sc) IN \A i \in RangeOf(mm.cons) : Exact(mm, i) => v[i].v \in {<<0>>, <<Sc>>}
RECURSIVE PutAll(_, _)
PutAll(mm, sets) == IF sets = <<>> THEN mm
                    ELSE PutAll(PutDecision(mm, sets[1][2], sets[1][1] + 1, sets[1][3]), Tail(sets))
Do(c) ==
    CASE OnDead(c) -> m' = m /\ err' = StructOf(STRUCT, m, c)
      [] c.e = "new" ->
            LET nd == c.nd
                j == NewVerdict(m, nd, Sc)
                n == IF Raised(c) THEN AddRefused(m) ELSE AddNode(m, nd, c.hold = 1)
                i == Len(m.g) + 1
                compound == nd.op = "GetItem"
            IN  /\ m' = n
                /\ err' = (IF j = "any" THEN {}
                           ELSE Check({"C08", "C09", "C17"} \cup (IF Locked(m) THEN {"C10"} ELSE {}),
                                      IF j = "ok" THEN "refused" ELSE "accepted", Raised(c) = (j = "no")))
                          \cup (IF Raised(c) THEN
                                  (IF Has(c, "dn") THEN Check({"C09", "C17"}, "left symbols behind", c.dn = 0 \/ (compound /\ c.dn = 1)) ELSE {})
                                ELSE Check({"C08", "C09", "C20", "C17"}, "shape", nd.op \in {"DisjointBitSets", "DisjointLists"} \/ c.sh = n.sh[i])
                                     \cup Check({"C20"}, "type", compound \/ nd.op = "Same" \/ c.t = nd.op)
                                     \cup Check({"C20", "C17"}, "model", c.mod = 1))
                          \cup StructOf(STRUCT, n, c)
      [] c.e = "iadd" ->
            LET n == c.n + 1 b == c.b + 1
                ok == ~Locked(m) /\ Alive(m.g, n) /\ Alive(m.g, b) /\ m.sh[n] = m.sh[b] /\ ~IsDyn(m.sh[b])
                inp == InPlace(m, n, b, c.k)
                nd == [op |-> IF c.k = "+" THEN "NaryAdd" ELSE "NaryMultiply", p |-> <<c.n, c.b>>, tol |-> 0]
                n2 == IF Raised(c) THEN AddRefused(m) ELSE IF inp THEN InPlaceNode(m, n, b) ELSE AddNode(m, nd, TRUE)
            IN  /\ m' = n2
                /\ err' = Check({"C08", "C10", "C17"}, "in place", Raised(c) = ~ok /\ (~Raised(c) => (c.same = 1) = inp))
                          \cup StructOf(STRUCT, n2, c)
      [] c.e = "lock" ->
            /\ m' = LockModel(m)
            /\ err' = RaiseErr({"C10", "C12"}, "", c) \cup StructOf(STRUCT, LockModel(m), c)
      [] c.e = "unlock" ->
            /\ m' = UnlockModel(m)
            /\ err' = RaiseErr({"C10", "C12"}, "", c) \cup StructOf(STRUCT, UnlockModel(m), c)
      [] c.e = "resize" ->
            /\ m' = IF c.n < 0 THEN m ELSE Resize(m, c.n)
            /\ err' = RaiseErr({"C12"}, IF c.n < 0 THEN "negative" ELSE "", c)
                      \cup (IF Has(c, "ns") THEN Check({"C12"}, "states.size", c.ns = Len(m'.slots)) ELSE {})
                      \cup FutureErr(c)
                      \cup StructOf(STRUCT, m', c)
      [] c.e = "clear" ->
            /\ m' = Clear(m)
            /\ err' = RaiseErr({"C12"}, "", c) \cup (IF Has(c, "ns") THEN Check({"C12"}, "states.size", c.ns = 0) ELSE {}) \cup FutureErr(c) \cup StructOf(STRUCT, m', c)
      [] c.e = "future" ->
            \* as if the result had been there at once
            /\ m' = IF c.bad = 1 THEN Resize(m, 0) ELSE PutAll(Resize(Resize(m, 0), c.n), c.sets)
            /\ err' = RaiseErr({"C12"}, "", c)
                      \cup (IF Has(c, "early") THEN Check({"C12"}, "the hook was called early", c.early = 0) ELSE {})
                      \cup (IF c.bad = 1 /\ Has(c, "ns") THEN Check({"C12"}, "failing future", c.fails = 1 /\ c.ns = 0) ELSE {})
                      \cup FutureErr(c)
      [] c.e = "initialize" ->
            /\ m' = IF Locked(m) THEN InitializeAll(m, Sc) ELSE m
            /\ err' = RaiseErr({"C12"}, IF Locked(m) THEN "" ELSE "unlocked", c)
      [] c.e = "set" ->
            LET d == c.d + 1
                v == SetVerdict(m, c.s, d, c.v, Sc)
                f == IF v # "index" THEN Forget(m, c.s, Desc(m, {d})) ELSE m
                kept == v = "domain" /\ HasState(m, c.s, d) /\ Has(c, "b") /\ c.b = 1      \* the old contents stayed
            IN  /\ m' = IF v = "" THEN PutDecision(m, c.s, d, c.v)
                        ELSE IF kept THEN PutDecision(m, c.s, d, Slot(m, c.s).dec[d]) ELSE f
                /\ err' = RaiseErr({"C07", "C12", "C13"}, v, c)
                          \cup (IF Has(c, "b") /\ v = "domain" THEN Check({"C07", "C12"}, "a refused state is visible",
                                    c.b = 0 \/ (HasState(m, c.s, d) /\ (Disjoint(m.g[d]) \/ (c.vv.v = Slot(m, c.s).dec[d] /\ c.vv.x = 0)))) ELSE {})
                          \cup (IF Has(c, "b") /\ v = "" THEN Check({"C07", "C12"}, "set state",
                                    c.b = 1 /\ (Disjoint(m.g[d]) \/ (c.vv.v = c.v /\ c.vv.x = 0))) ELSE {})
      [] c.e = "reset" ->
            LET i == c.n + 1 IN
            /\ m' = IF SlotOK(m, c.s) THEN ResetState(m, c.s, i) ELSE m
            /\ err' = RaiseErr({"C12"}, IF SlotOK(m, c.s) THEN "" ELSE "index", c)
      [] c.e = "read" ->
            LET i == c.n + 1
                v == ReadVerdict(m, c.s, i)
            IN  /\ m' = IF v = "" THEN ReadState(m, c.s, i, Sc) ELSE m
                /\ err' = RaiseErr({"C12", "C07", "C14"}, v, c)
                          \cup (IF Raised(c) THEN {}
                                ELSE Check({"C12", "C07", "C14"}, "value",
                                        IF m.g[i].op = "Constant" THEN SameValue(c, m.g[i])
                                        ELSE v = "" /\ Exact(m, i) => SameValue(c, Values(m, SlotIndex(m, c.s), Sc)[i]))
                                     \cup Check({"C12"}, "the caller's copy", c.again = 1))
      [] c.e = "has" ->
            LET i == c.n + 1
                v == ReadVerdict(m, c.s, i)
                s == SlotIndex(m, c.s)
            IN  /\ m' = IF v = "" /\ ~Raised(c) /\ MayHave(m, s, i)
                        THEN (IF c.b = 1 THEN Materialize(m, s, {i}, Sc) ELSE Forget(m, s, {i})) ELSE m
                /\ err' = RaiseErr({"C12", "C07"}, v, c)
                          \cup (IF Raised(c) \/ v # "" THEN {}
                                ELSE Check({"C12", "C07"}, "has_state", MayHave(m, s, i) \/ (c.b = 1) = HasState(m, s, i)))
      [] c.e = "readall" ->
            /\ m' = IF Locked(m) /\ SlotOK(m, c.s) THEN Materialize(m, c.s, {i \in AliveSet(m) : m.g[i].op # "Constant" \/ HasState(m, c.s, i)}, Sc) ELSE m
            /\ err' = (IF Raised(c) THEN Check({"C08", "C09", "C18"}, "raised", FALSE) ELSE ExprErr({"C08", "C09", "C18"}, m, c)
                                          \cup UNION {CheckN({"C20"}, "state_size", i, c.vals[i].ssz >= 8 * Len(c.vals[i].v)) : i \in {i \in DOMAIN c.vals : Has(c.vals[i], "v")}})
      [] c.e = "min" ->
            LET i == c.n + 1
                v == IF c.n = -1 THEN "missing" ELSE ObjectiveVerdict(m, i)
                n == IF Raised(c) THEN m ELSE [m EXCEPT !.obj = i]
            IN  /\ m' = n
                /\ err' = RaiseErr({"C14", "C17"}, IF v = "" /\ Locked(m) THEN "any" ELSE v, c)
                          \cup StructOf(STRUCT, n, c)
      [] c.e = "con" ->
            LET i == c.n + 1
                v == IF c.n = -1 THEN "missing" ELSE ConstraintVerdict(m, i, Sc)
                n == IF Raised(c) THEN m ELSE [m EXCEPT !.cons = Append(@, i)]
            IN  /\ m' = n
                /\ err' = RaiseErr({"C14", "C17"}, IF v = "" /\ Locked(m) THEN "any" ELSE v, c)
                          \cup (IF Raised(c) THEN {} ELSE Check({"C14"}, "add_constraint returns the symbol", c.ret = c.n))
                          \cup StructOf(STRUCT, n, c)
      [] c.e = "feas" ->
            LET s == SlotIndex(m, c.s)
                ok == SlotOK(m, s)
                noconst == \A k \in DOMAIN m.cons : m.g[m.cons[k]].op # "Constant"
                clear == ok /\ (Locked(m) \/ \A k \in DOMAIN m.cons : IsDec(m, m.cons[k]))
                X == Anc(m, RangeOf(m.cons))
            IN  /\ m' = IF ok /\ m.cons # <<>>
                        THEN [m EXCEPT !.slots = [@ EXCEPT ![s + 1] = [@ EXCEPT !.may = @ \cup {i \in X : ~HasState(m, s, i)}]]]
                        ELSE m
                /\ err' = IF m.cons = <<>> THEN Check({"C14"}, "feasible", Raised(c) \/ c.b = 1)
                          ELSE IF clear THEN Check({"C14"}, "feasible", ~Raised(c) /\ (c.b = 1) = Feasible(m, s, Sc))
                                             \cup Check({"C14"}, "a constraint that is not logical was accepted", OnlyLogical(m, s))
                          ELSE IF ~ok /\ noconst THEN Check({"C14", "C12"}, "feasible", Raised(c)) ELSE {}
      [] c.e = "remove" ->
            LET n == IF Locked(m) THEN m ELSE RemoveUnused(m) IN
            /\ m' = n
            /\ err' = RaiseErr({"C11", "C10"}, IF Locked(m) THEN "locked" ELSE "", c)
                      \cup (IF Raised(c) THEN {} ELSE Check({"C11"}, "remove_unused_symbols returns", c.ret = Cardinality(AliveSet(m) \ AliveSet(n))))
                      \cup StructOf(STRUCT, n, c)
      [] c.e = "drop" -> m' = [m EXCEPT !.held = @ \ {c.n + 1}] /\ err' = {}
      [] c.e = "hold" -> m' = [m EXCEPT !.held = @ \cup {c.n + 1}] /\ err' = Check({"C11"}, "symbol is gone", ~Raised(c))
      [] c.e = "eq" -> m' = m /\ err' = (IF Raised(c) THEN Check({"C20"}, "raised", FALSE) ELSE EqErr({"C20"}, m, c.a + 1, c.b + 1, c))
      [] c.e = "eqx" -> m' = m /\ err' = (IF Raised(c) THEN Check({"C20"}, "raised", FALSE)
                                          ELSE Check({"C20"}, "equals a non-symbol", \A k \in DOMAIN c.eq : c.eq[k] = 0 /\ c.sm[k] = 0))
      [] c.e = "views" -> m' = m /\ err' = (IF Raised(c) THEN Check({"C20"}, "raised", FALSE) ELSE ViewsErr({"C20"}, m, c))
      [] c.e = "file" ->
            \* reading for the file leaves the decisions' states as they are
            /\ m' = m
            /\ err' = FileErr({"C13"}, m, c) \cup StructOf({"C13", "C10"}, m, c)
      [] c.e = "foreign" ->
            /\ m' = m
            /\ err' = Check({"C17"}, "symbols of two models", Raised(c)) \cup Check({"C17"}, "left symbols behind", c.d1 = 0 /\ c.d2 = 0 /\ c.e2 = 0)
      [] c.e = "crash" -> m' = m /\ err' = {<<"crash", -1>>}

TraceInit ==
    /\ sc \in 1..Len(T)
    /\ l = 0
    /\ m = EmptyModel
    /\ err = {}
TraceNext ==
    /\ l < Len(Steps)
    /\ err = {}
    /\ Do(Steps[l + 1])
    /\ l' = l + 1
    /\ UNCHANGED sc
TraceSpec == TraceInit /\ [][TraceNext]_vars

Conforms == IF err = {} THEN TRUE ELSE PrintT(<<"REJECT", T[sc].id, l, IF l > 0 THEN Steps[l].e ELSE "start", err>>) /\ FALSE
\* the specification's own invariants hold along every trace
Sound == TypeOK(m) /\ SlotsOK(m, Sc)
=============================================================================

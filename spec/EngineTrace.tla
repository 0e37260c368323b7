---------------------------- MODULE EngineTrace ----------------------------
(* Validates executions of the real library against Engine.  Every scenario  *)
(* of trace.ndjson is one behaviour; each logged call is one step: the        *)
(* variables are bound to what was observed, and err collects the clauses of  *)
(* the selected property (Prop) that the step violates.                       *)
EXTENDS Engine, Json, TLC

CONSTANT Prop

T == ndJsonDeserialize("trace.ndjson")

VARIABLES sc, l, st, reverted, err
traceVars == <<engineVars, sc, l, st, reverted, err>>

SlotIds == 0..3
Has(r, f) == f \in DOMAIN r
G == T[sc].nodes
Sc == T[sc].S
Steps == T[sc].steps
N == Len(G)
Arrays == {i \in 1..N : HasArray(G, i)}

SlotObs(step, s) ==
    LET k == CHOOSE k \in 1..Len(step.sl) : step.sl[k][1] = s IN step.sl[k][2]
Seen(ob, i) == Has(ob[i], "v")
Strip(ob, old) ==
    [i \in 1..N |-> IF HasArray(G, i) /\ Seen(ob, i) THEN [sh |-> ob[i].sh, v |-> ob[i].v]
                    ELSE old[i]]
Blank == [i \in 1..N |-> NoValue]
SameAt(ob, old, i) == ob[i].v = old[i].v /\ ob[i].sh = old[i].sh

(* ---- clauses; each yields a set of <<clause, node (0-based)>> ---- *)
Bad(name, X) == {<<name, i - 1>> : i \in X}

\* C01
ValueErr(ob) ==
    Bad("value", {i \in Arrays : Functional(G[i]) /\ Seen(ob, i)
                      /\ ~ValueOK(G[i], [k \in DOMAIN G[i].p |-> ob[G[i].p[k] + 1]], ArgShapes(G, i, st), ob[i], Sc)})
\* C02
ChangedErr(name, ob, ref) == Bad(name, {i \in Arrays : ~SameAt(ob, ref, i)})
PendingErr(ob) == Bad("pending", {i \in Arrays : ob[i].df # <<>> \/ ob[i].sd # 0})
\* C03: apply a diff, update by update, to the committed elements
ApplyOne(r, u) ==
    IF ~r.ok THEN r
    ELSE LET i == u[1] kind == u[2] c == r.c
             bad == [ok |-> FALSE, c |-> c]
         IN
         CASE kind = 0 -> IF i >= 0 /\ i < Len(c) /\ c[i + 1] = u[3] THEN [ok |-> TRUE, c |-> [c EXCEPT ![i + 1] = u[4]]] ELSE bad
           [] kind = 1 -> IF i = Len(c) THEN [ok |-> TRUE, c |-> Append(c, u[4])] ELSE bad
           [] kind = 2 -> IF i = Len(c) - 1 /\ c[i + 1] = u[3] THEN [ok |-> TRUE, c |-> SubSeq(c, 1, i)] ELSE bad
           [] OTHER -> bad
DiffGives(c, df, v) == LET r == FoldLeft(ApplyOne, [ok |-> TRUE, c |-> c], df) IN r.ok /\ r.c = v
DiffErr(ob, ref) ==
    Bad("diff", {i \in Arrays : ~DiffGives(ref[i].v, ob[i].df, ob[i].v)})
    \cup Bad("size_diff", {i \in Arrays : ob[i].sd # Len(ob[i].v) - Len(ref[i].v)})
\* C04
Stat(i) == T[sc].stat[i]
InSize(si, n) ==
    /\ (si.a = -1 \/ si.mn = 0) => n = si.of
    /\ si.min # -1 => n >= si.min
    /\ si.max # -1 => n <= si.max
BoundErr(ob) ==
    Bad("min/max", {i \in Arrays : \E k \in 1..Len(ob[i].v) : ob[i].v[k] < Stat(i).min \/ ob[i].v[k] > Stat(i).max})
    \cup Bad("integral", {i \in Arrays : Stat(i).int = 1 /\ (ob[i].x # 0 \/ ob[i].ni # 0 \/ \E k \in 1..Len(ob[i].v) : ob[i].v[k] % Sc # 0)})
    \cup Bad("logical", {i \in Arrays : Stat(i).log = 1 /\ \E k \in 1..Len(ob[i].v) : ob[i].v[k] \notin {0, Sc}})
    \cup Bad("sizeinfo", {i \in Arrays : ~InSize(Stat(i).si, Len(ob[i].v))})
    \cup Bad("sizeinfo1", {i \in Arrays : ~InSize(Stat(i).si1, Len(ob[i].v))})
    \cup Bad("sizeinfoN", {i \in Arrays : ~InSize(Stat(i).siN, Len(ob[i].v))})
\* C05
ShapeErr(ob) ==
    LET sz(i) == SizeOf(ob[i].sh) IN
    Bad("ndim", {i \in Arrays : Len(ob[i].sh) # Stat(i).nd \/ Len(Stat(i).sh) # Stat(i).nd})
    \cup Bad("static shape", {i \in Arrays : \E k \in 1..MinI(Len(ob[i].sh), Len(Stat(i).sh)) :
                  ob[i].sh[k] # Stat(i).sh[k] /\ ~(k = 1 /\ Stat(i).sh[1] < 0 /\ ob[i].sh[1] >= 0)})
    \cup Bad("size", {i \in Arrays : ob[i].n # sz(i) \/ ob[i].len # ob[i].n * Stat(i).item \/ ob[i].vn # ob[i].n
                                     \/ ob[i].dist # ob[i].n})
    \cup Bad("elements", {i \in Arrays : Len(ob[i].v) # ob[i].n \/ ob[i].r # ob[i].v \/ ob[i].b # ob[i].v
                                         \/ ob[i].w # Reverse(ob[i].v)
                                         \/ (ob[i].n > 0 /\ ob[i].fb # <<ob[i].v[1]>>)})
    \cup Bad("shape by definition", {i \in Arrays :
                  IF Functional(G[i])
                  THEN ~ShapeOK(G[i], [k \in DOMAIN G[i].p |-> ob[G[i].p[k] + 1]], ArgShapes(G, i, st), ob[i], Sc)
                  ELSE ob[i].sh # DecShape(G[i], ob[i].v)})
StaticShapeErr ==
    Bad("declared shape", {i \in Arrays : Stat(i).sh # st[i] \/ Stat(i).n # StaticSize(st[i])
                                          \/ Stat(i).dyn # (IF IsDyn(st[i]) THEN 1 ELSE 0)})
    \cup Bad("contiguous", {i \in Arrays :
            LET cs == CStrides(Stat(i).sh)
                relevant == {k \in 1..Len(cs) : Stat(i).sh[k] # 1}
                cc == \A k \in relevant : Stat(i).str[k] = cs[k] * Stat(i).item
            IN  Stat(i).cont = 1 /\ ~cc /\ \A k \in 1..Len(cs) : Stat(i).sh[k] # 0})
\* C06
MoveErr(step, ob, ref) ==
    LET d == step.m.d + 1
        nd == G[d]
        before == Contents(G, ref, d)
        after == Contents(G, Strip(ob, ref), d)
        own == IF Disjoint(nd) THEN RangeOf(Outputs(G, d)) ELSE {d}
        others == {i \in Arrays \ own : Seen(ob, i)}
    IN  Bad("other decision touched", {i \in others : ~SameAt(ob, ref, i)})
        \cup (IF step.m.k # "set_state" /\ InDomain(nd, before, Sc) /\ ~InDomain(nd, after, Sc)
              THEN {<<"domain", d - 1>>} ELSE {})
        \cup (IF step.m.k = "default_move" THEN {}
              ELSE (IF after \in After(nd, step.m, before, Sc) THEN {} ELSE {<<"effect", d - 1>>})
                   \cup (IF MustThrow(nd, step.m, Sc) = (step.exc # "") THEN {} ELSE {<<"exception", d - 1>>})
                   \cup (IF step.exc = "" /\ Returned(nd, step.m, before, Sc) \notin {NONE, step.ret}
                         THEN {<<"return value", d - 1>>} ELSE {}))
DomainErr(ob) ==
    {<<"domain", d - 1>> : d \in {d \in Decisions(G) : ~InDomain(G[d], Contents(G, Strip(ob, Blank), d), Sc)}}
\* C07: step.dec[j] = [d, mode, v]: mode 0 default, 1/4 flat, 2 nested, 3 random
InitOK(x) == x.mode \in {0, 3} \/ InDomain(G[x.d + 1], x.v, Sc)
InitErr(step) ==
    LET valid == \A j \in 1..Len(step.dec) : InitOK(step.dec[j])
    IN  IF ~valid THEN (IF step.exc = "" THEN {<<"invalid state accepted", -1>>} ELSE {})
        ELSE IF step.exc # "" THEN {<<"valid state refused", -1>>}
        ELSE LET ob == SlotObs(step, step.s)
                 con(d) == Contents(G, Strip(ob, Blank), d)
             IN  UNION {LET x == step.dec[j] d == x.d + 1 IN
                        (IF x.mode \in {1, 2, 4} /\ con(d) # x.v THEN {<<"stored state differs", d - 1>>} ELSE {})
                        \cup (IF x.mode = 0 /\ G[d].op # "Dyn" /\ con(d) # DefaultState(G[d], Sc) THEN {<<"default state", d - 1>>} ELSE {})
                        : j \in 1..Len(step.dec)}
                 \cup DomainErr(ob)
\* C14
ObjErr(step, ob) ==
    LET o == T[sc].obj cs == T[sc].cons IN
    (IF step.en # (IF o < 0 THEN 0 ELSE ob[o + 1].v[1]) THEN {<<"energy", o>>} ELSE {})
    \cup (IF (step.fe = 1) # (\A k \in 1..Len(cs) : ob[cs[k] + 1].v[1] # 0) THEN {<<"feasible", -1>>} ELSE {})
\* C15
Sources(step) == {x + 1 : x \in RangeOf(step.src)}
FrameErr(step, ob, ref) ==       \* what is not reachable from the sources is not touched
    Bad("not a descendant", {i \in Arrays : i \notin Reach(G, Sources(step)) /\ ~SameAt(ob, ref, i)})
DescErr(step) ==
    (IF {x + 1 : x \in RangeOf(step.ch)} = Reach(G, Sources(step)) /\ Distinct(step.ch) THEN {} ELSE {<<"descendants", -1>>})
    \cup (IF \A i, j \in 1..Len(step.ch) : i < j => (step.ch[j] + 1) \notin PredSet(G, step.ch[i] + 1)
          THEN {} ELSE {<<"descendants order", -1>>})
\* other slots are untouched by a step on slot s
IsolationErr(step, s) ==
    UNION {LET k == step.sl[j][1] ob == step.sl[j][2] IN
           IF k = s \/ phase[k] = "none" THEN {}
           ELSE Bad("other state touched", {i \in Arrays : Seen(ob, i) /\ ~SameAt(ob, val[k], i)})
           : j \in 1..Len(step.sl)}

\* C18: the coefficients read back are the accumulated ones
QmErr(step) ==
    LET nd == G[step.n + 1]
        n == Len(nd.lin)
        q == nd.quad
        coef(u, v) == LET X == {k \in 1..Len(q) : {q[k][1], q[k][2]} = {u, v}}
                      IN  IF X = {} THEN 0 ELSE q[CHOOSE k \in X : TRUE][3]
        pairs == {k \in 1..Len(q) : q[k][1] # q[k][2]}
        bad == {c \in {"num_variables", "linear", "squares", "quadratic", "num_interactions", "interactions"} :
            ~(CASE c = "num_variables" -> step.nv = n
                [] c = "linear" -> step.lin = nd.lin /\ step.lin2 = nd.lin
                [] c = "squares" -> step.sq = [u \in 1..n |-> coef(u - 1, u - 1)]
                [] c = "quadratic" -> step.quad = [u \in 1..n |-> [v \in 1..n |-> coef(u - 1, v - 1)]]
                [] c = "num_interactions" -> step.ni = Cardinality(pairs)
                [] c = "interactions" -> {<<MinI(x[1], x[2]), MaxI(x[1], x[2]), x[3]>> : x \in RangeOf(step.coo)}
                                         = {q[k] : k \in pairs})}
    IN  IF G[step.n + 1].op = "Dead" THEN {} ELSE {<<c, step.n>> : c \in bad}
QmValueErr(ob) ==
    Bad("value", {i \in Arrays : G[i].op = "QuadraticModel"
                      /\ ~ValueOK(G[i], [k \in DOMAIN G[i].p |-> ob[G[i].p[k] + 1]], ArgShapes(G, i, st), ob[i], Sc)})

(* ---- steps ---- *)
StepErr(step) ==
    LET s == step.s
        ob == SlotObs(step, s)
        okc == step.exc = ""
        threw == IF okc THEN {} ELSE {<<"unexpected exception", -1>>}
    IN
    CASE step.e = "init" ->
           IF Prop = "C07" THEN InitErr(step)
           ELSE IF ~okc THEN (IF \A j \in 1..Len(step.dec) : InitOK(step.dec[j]) THEN threw ELSE {})
           ELSE CASE Prop = "C01" -> ValueErr(ob)
                  [] Prop = "C03" -> PendingErr(ob)
                  [] Prop = "C04" -> BoundErr(ob)
                  [] Prop = "C05" -> ShapeErr(ob) \cup StaticShapeErr
                  [] Prop = "C06" -> DomainErr(ob)
                  [] Prop = "C14" -> ObjErr(step, ob)
              [] Prop = "C18" -> QmValueErr(ob)
                  [] Prop = "C15" -> IsolationErr(step, s)
                  [] Prop = "C18" -> QmValueErr(ob)
                  [] OTHER -> {}
      [] step.e = "mv" ->
           CASE Prop = "C06" -> MoveErr(step, ob, val[s])
             [] Prop = "C15" -> IsolationErr(step, s)
             [] OTHER -> {}
      [] step.e = "prop" ->
           threw \cup
           (CASE Prop = "C01" -> ValueErr(ob)
              [] Prop = "C02" -> IF reverted[s] THEN ValueErr(ob) ELSE {}
              [] Prop = "C03" -> DiffErr(ob, com[s])
              [] Prop = "C04" -> BoundErr(ob)
              [] Prop = "C05" -> ShapeErr(ob)
              [] Prop = "C06" -> ChangedErr("propagation changed a decision", [i \in 1..N |-> IF Functional(G[i]) THEN val[s][i] ELSE ob[i]], val[s])
              [] Prop = "C14" -> ObjErr(step, ob)
              [] Prop = "C18" -> QmValueErr(ob)
              [] Prop = "C15" -> FrameErr(step, ob, com[s]) \cup DescErr(step) \cup IsolationErr(step, s) \cup ValueErr(ob)
              [] OTHER -> {})
      [] step.e \in {"com", "rev"} ->
           threw \cup
           (CASE Prop = "C01" -> ValueErr(ob)
              [] Prop = "C02" -> ChangedErr(IF step.e = "com" THEN "not kept" ELSE "not restored", ob,
                                            IF step.e = "com" THEN val[s] ELSE com[s]) \cup PendingErr(ob)
              [] Prop = "C03" -> PendingErr(ob)
              [] Prop = "C04" -> BoundErr(ob)
              [] Prop = "C05" -> ShapeErr(ob)
              [] Prop = "C06" -> ChangedErr("decision not kept/restored",
                                    [i \in 1..N |-> IF Functional(G[i]) THEN NoValue ELSE ob[i]],
                                    [i \in 1..N |-> IF Functional(G[i]) THEN NoValue ELSE IF step.e = "com" THEN val[s][i] ELSE com[s][i]])
              [] Prop = "C14" -> ObjErr(step, ob)
              [] Prop = "C18" -> QmValueErr(ob)
              [] Prop = "C15" -> ChangedErr(IF step.e = "com" THEN "not kept" ELSE "not restored", ob,
                                            IF step.e = "com" THEN val[s] ELSE com[s]) \cup IsolationErr(step, s)
              [] OTHER -> {})
      [] step.e = "propose" ->
           LET mid == step.mid
               ref == IF step.acc = 0 THEN com[s] ELSE IF step.acc = 1 THEN Strip(mid, Blank) ELSE Strip(ob, Blank)
               known == step.acc # 2
           IN
           threw \cup
           (CASE Prop = "C01" -> ValueErr(ob) \cup (IF known THEN ValueErr(mid) ELSE {})
              [] Prop = "C02" -> ChangedErr(IF step.acc = 0 THEN "not restored" ELSE "not kept", ob, ref) \cup PendingErr(ob)
                                 \cup (IF reverted[s] /\ known THEN ValueErr(mid) ELSE {})
              [] Prop = "C03" -> PendingErr(ob) \cup (IF known THEN DiffErr(mid, com[s]) ELSE {})
              [] Prop = "C04" -> BoundErr(ob) \cup (IF known THEN BoundErr(mid) ELSE {})
              [] Prop = "C05" -> ShapeErr(ob) \cup (IF known THEN ShapeErr(mid) ELSE {})
              [] Prop = "C14" -> ObjErr(step, ob)
              [] Prop = "C18" -> QmValueErr(ob)
              [] Prop = "C15" -> ChangedErr(IF step.acc = 0 THEN "not restored" ELSE "not kept", ob, ref)
                                 \cup FrameErr(step, IF known THEN mid ELSE ob, com[s])
                                 \cup ValueErr(ob) \cup (IF known THEN ValueErr(mid) ELSE {})
                                 \cup (IF known /\ step.calls # 1 THEN {<<"acceptance calls", -1>>} ELSE {})
                                 \cup (IF known /\ step.same # 1 THEN {<<"acceptance arguments", -1>>} ELSE {})
                                 \cup IsolationErr(step, s)
              [] OTHER -> {})
      [] step.e = "copy" ->
           threw \cup
           (CASE Prop = "C15" -> ChangedErr("copy differs", SlotObs(step, step.t), val[s]) \cup IsolationErr(step, step.t)
              [] Prop = "C01" -> ValueErr(SlotObs(step, step.t))
              [] OTHER -> {})
      [] step.e = "drop" -> IF Prop = "C15" THEN IsolationErr(step, s) ELSE {}
      [] step.e = "qm" -> IF Prop = "C18" THEN QmErr(step) ELSE {}
      [] step.e = "crash" -> {<<"crash", -1>>}
      [] OTHER -> {}

\* how the engine's variables move: the action of Engine, bound to the observation
Bind(step) ==
    LET s == step.s IN
    CASE step.e = "init" ->
           IF step.exc = ""
           THEN LET o == Strip(SlotObs(step, s), Blank) IN
                /\ val' = [val EXCEPT ![s] = o] /\ com' = [com EXCEPT ![s] = o]
                /\ phase' = [phase EXCEPT ![s] = "clean"]
                /\ reverted' = [reverted EXCEPT ![s] = FALSE]
           ELSE /\ phase' = [phase EXCEPT ![s] = "none"] /\ UNCHANGED <<val, com, reverted>>
      [] step.e = "mv" ->
           /\ phase[s] \in {"clean", "moved"}
           /\ val' = [val EXCEPT ![s] = Strip(SlotObs(step, s), val[s])]
           /\ phase' = [phase EXCEPT ![s] = "moved"] /\ UNCHANGED <<com, reverted>>
      [] step.e = "prop" ->
           /\ phase[s] \in {"clean", "moved"}
           /\ val' = [val EXCEPT ![s] = Strip(SlotObs(step, s), val[s])]
           /\ phase' = [phase EXCEPT ![s] = "prop"] /\ UNCHANGED <<com, reverted>>
      [] step.e \in {"com", "rev"} ->
           /\ phase[s] = "prop"
           /\ LET o == Strip(SlotObs(step, s), Blank) IN
              val' = [val EXCEPT ![s] = o] /\ com' = [com EXCEPT ![s] = o]
           /\ phase' = [phase EXCEPT ![s] = "clean"]
           /\ reverted' = [reverted EXCEPT ![s] = @ \/ step.e = "rev"]
      [] step.e = "propose" ->
           /\ phase[s] \in {"clean", "moved"}
           /\ LET o == Strip(SlotObs(step, s), Blank) IN
              val' = [val EXCEPT ![s] = o] /\ com' = [com EXCEPT ![s] = o]
           /\ phase' = [phase EXCEPT ![s] = "clean"]
           /\ reverted' = [reverted EXCEPT ![s] = @ \/ step.acc = 0]
      [] step.e = "copy" ->
           LET o == Strip(SlotObs(step, step.t), Blank) IN
           /\ val' = [val EXCEPT ![step.t] = o] /\ com' = [com EXCEPT ![step.t] = o]
           /\ phase' = [phase EXCEPT ![step.t] = "clean"]
           /\ reverted' = [reverted EXCEPT ![step.t] = FALSE]
      [] step.e = "drop" ->
           phase' = [phase EXCEPT ![s] = "none"] /\ UNCHANGED <<val, com, reverted>>
      [] OTHER -> UNCHANGED <<val, com, phase, reverted>>

TraceInit ==
    /\ sc \in 1..Len(T)
    /\ l = 0
    /\ st = ShapesFrom(T[sc].nodes, <<>>)
    /\ val = [s \in SlotIds |-> Blank]
    /\ com = val
    /\ phase = [s \in SlotIds |-> "none"]
    /\ reverted = [s \in SlotIds |-> FALSE]
    /\ err = {}

TraceNext ==
    /\ l < Len(Steps)
    /\ err = {}
    /\ l' = l + 1
    /\ UNCHANGED <<sc, st>>
    /\ LET step == Steps[l + 1]
           e == StepErr(step)
       IN  /\ err' = e
           /\ IF e = {} THEN TRUE ELSE PrintT(<<"REJECT", T[sc].id, l + 1, step.e, e>>)
           /\ IF e = {} THEN Bind(step) ELSE UNCHANGED <<val, com, phase, reverted>>

TraceSpec == TraceInit /\ [][TraceNext]_traceVars
Conforms == err = {}
=============================================================================

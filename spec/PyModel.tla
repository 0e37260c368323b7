------------------------------ MODULE PyModel ------------------------------
(* The Python-level model: a graph under construction, its objective and      *)
(* constraints, the lock, the live handles, and the model's states.           *)
(*                                                                            *)
(* m = [ g     every symbol created so far, in order (refused and removed     *)
(*             ones are "Dead"),                                              *)
(*       sh    static shapes,                                                 *)
(*       held  symbols with a live Python handle,                             *)
(*       gone  symbols that were removed,                                     *)
(*       obj   objective (0: none), cons constraints,                         *)
(*       lock  nesting depth,                                                 *)
(*       slots sequence of states: [dec |-> contents of the decisions that    *)
(*             have a state, has |-> other symbols with a state,              *)
(*             may |-> symbols that may or may not have one] ]                *)
(*                                                                            *)
(* One operator per call.  They yield [no |-> why the call must raise ("" if  *)
(* it must not), m |-> the model after the call]; a call that raises leaves   *)
(* m as it is unless stated otherwise.                                        *)
EXTENDS Construct, Functions

EmptySlot == [dec |-> <<>>, has |-> {}, may |-> {}]
EmptyModel == [g |-> <<>>, sh |-> <<>>, held |-> {}, gone |-> {}, obj |-> 0, cons |-> <<>>, lock |-> 0, slots |-> <<>>]

AliveSet(m) == {i \in 1..Len(m.g) : Alive(m.g, i)}
Decs(m) == Decisions(m.g)
IsDec(m, i) == m.g[i].op \in DecisionOps
Locked(m) == m.lock > 0
Anc(m, X) ==
    LET RECURSIVE up(_)
        up(Y) == LET Z == Y \cup UNION {PredSet(m.g, i) : i \in Y} IN IF Z = Y THEN Y ELSE up(Z)
    IN  up(X)
Desc(m, X) == Reach(m.g, X)
Slot(m, s) == m.slots[s + 1]
SlotOK(m, s) == s >= 0 /\ s < Len(m.slots)
\* Python's negative indices
SlotIndex(m, s) == IF s < 0 THEN s + Len(m.slots) ELSE s

\* the contents of every decision in slot s: what was set, or the default
DecContents(m, s, S) ==
    [d \in Decs(m) |-> IF d \in DOMAIN Slot(m, s).dec THEN Slot(m, s).dec[d] ELSE DefaultState(m.g[d], S)]
Values(m, s, S) == EvalAll(m.g, m.sh, DecContents(m, s, S), S)

Same(m) == [no |-> "", m |-> m]
Refuse(m, why) == [no |-> why, m |-> m]

(* ---- construction ---- *)
DeadNode == [op |-> "Dead", p |-> <<>>, tol |-> 0]
AddNode(m, nd, keep) ==
    LET i == Len(m.g) + 1
    IN  [m EXCEPT !.g = Append(@, nd),
                  !.sh = Append(@, StaticShape(nd, [k \in DOMAIN nd.p |-> m.sh[nd.p[k] + 1]])),
                  !.held = IF keep THEN @ \cup {i} ELSE @]
AddRefused(m) == [m EXCEPT !.g = Append(@, DeadNode), !.sh = Append(@, <<>>)]
RECURSIVE Root(_, _)
Root(g, i) == IF g[i].op = "Same" THEN Root(g, g[i].p[1] + 1) ELSE i     \* "Same": another name of a symbol
NewVerdict(m, nd, S) ==
    IF nd.op = "Same" THEN "any"     \* nothing is created
    ELSE IF Locked(m) THEN "no"
    ELSE IF \E k \in DOMAIN nd.p : ~Alive(m.g, nd.p[k] + 1) THEN "any"
    \* the package offers permutations by list variables only
    ELSE IF nd.op = "Permutation" /\ m.g[Root(m.g, nd.p[2] + 1)].op # "List" THEN "no"
    ELSE Judge(nd, [k \in DOMAIN nd.p |-> m.sh[nd.p[k] + 1]], [k \in DOMAIN nd.p |-> LeafInfo(m.g[nd.p[k] + 1], S)], S)
\* x += y, x *= y on an n-ary symbol extends it in place, unless y depends on x
InPlace(m, n, b, k) ==
    /\ m.g[n].op = (IF k = "+" THEN "NaryAdd" ELSE "NaryMultiply")
    /\ b \notin Desc(m, {n})
InPlaceNode(m, n, b) ==
    AddRefused([m EXCEPT !.g = [@ EXCEPT ![n] = [@ EXCEPT !.p = Append(@, b - 1)]]])

(* ---- lock ---- *)
LockModel(m) == [m EXCEPT !.lock = @ + 1]
UnlockModel(m) ==
    IF m.lock = 0 THEN m
    ELSE IF m.lock > 1 THEN [m EXCEPT !.lock = @ - 1]
    ELSE [m EXCEPT !.lock = 0,
                   !.slots = [k \in DOMAIN @ |-> [@[k] EXCEPT !.has = {}, !.may = @ \cap Decs(m)]]]

(* ---- states ---- *)
Resize(m, n) ==
    [m EXCEPT !.slots = [k \in 1..n |-> IF k <= Len(@) THEN @[k] ELSE EmptySlot]]
Clear(m) == [m EXCEPT !.slots = <<>>]
\* symbols X (closed under predecessors) get a state; decisions that had none get their default
Materialize(m, s, X, S) ==
    LET sl == Slot(m, s)
        new == {d \in X : IsDec(m, d) /\ d \notin DOMAIN sl.dec}
    IN  [m EXCEPT !.slots = [@ EXCEPT ![s + 1] =
            [dec |-> [d \in DOMAIN sl.dec \cup new |-> IF d \in new THEN DefaultState(m.g[d], S) ELSE sl.dec[d]],
             has |-> sl.has \cup {i \in X : ~IsDec(m, i)},
             may |-> sl.may \ X]]]
\* X (closed under successors) loses its state
Forget(m, s, X) ==
    LET sl == Slot(m, s)
    IN  [m EXCEPT !.slots = [@ EXCEPT ![s + 1] =
            [dec |-> [d \in DOMAIN sl.dec \ X |-> sl.dec[d]], has |-> sl.has \ X, may |-> sl.may \ X]]]
PutDecision(m, s, d, c) ==
    LET f == Forget(m, s, Desc(m, {d}))
        sl == Slot(f, s)
    IN  [f EXCEPT !.slots = [@ EXCEPT ![s + 1] =
            [sl EXCEPT !.dec = [x \in DOMAIN sl.dec \cup {d} |-> IF x = d THEN c ELSE sl.dec[x]]]]]
HasState(m, s, i) == IF IsDec(m, i) THEN i \in DOMAIN Slot(m, s).dec ELSE i \in Slot(m, s).has
MayHave(m, s, i) == i \in Slot(m, s).may

InitializeAll(m, S) ==
    LET RECURSIVE go(_, _)
        go(x, s) == IF s = Len(x.slots) THEN x ELSE go(Materialize(x, s, AliveSet(x), S), s + 1)
    IN  go(m, 0)
SetVerdict(m, s, d, c, S) ==
    IF ~SlotOK(m, s) THEN "index" ELSE IF ~InDomain(m.g[d], c, S) THEN "domain" ELSE ""
\* reading: the slot must exist (negative indices count from the end), and an unlocked model only
\* gives access to decisions
ReadVerdict(m, s, i) ==
    IF m.g[i].op = "Constant" THEN "any"
    ELSE IF ~SlotOK(m, SlotIndex(m, s)) THEN "index"
    ELSE IF ~Locked(m) /\ ~IsDec(m, i) THEN "unlocked" ELSE ""
ReadState(m, s, i, S) == IF m.g[i].op = "Constant" THEN m ELSE Materialize(m, SlotIndex(m, s), Anc(m, {i}), S)
\* symbols without predecessors or with fixed contents may have a state at any time
ResetState(m, s, i) == IF ~Locked(m) /\ ~IsDec(m, i) THEN m ELSE Forget(m, s, Desc(m, {i}))

(* ---- removal ---- *)
Needed(m) ==
    Decs(m) \cup {i \in AliveSet(m) : m.g[i].op \in OutputOps}
    \cup Anc(m, {i \in AliveSet(m) : i \in m.held \/ i = m.obj \/ \E k \in DOMAIN m.cons : m.cons[k] = i})
RemoveUnused(m) ==
    LET X == AliveSet(m) \ Needed(m)
    IN  [m EXCEPT !.g = [i \in DOMAIN @ |-> IF i \in X THEN DeadNode ELSE @[i]], !.gone = @ \cup X,
                  !.slots = [k \in DOMAIN @ |-> [@[k] EXCEPT !.may = @ \ X]]]

(* ---- objective, constraints ---- *)
\* "yes", "no", "any": whether a symbol is known to take the values 0 and 1 only
LogicalNode(nd, S) ==
    CASE nd.op \in BoolOps \cup {"Binary", "DisjointBitSet"} -> "yes"
      [] nd.op = "Constant" -> IF nd.v # <<>> /\ \A k \in DOMAIN nd.v : nd.v[k] \in {0, S} THEN "yes" ELSE IF nd.v = <<>> THEN "any" ELSE "no"
      [] nd.op = "Integer" -> IF nd.lb \in {0, 1} /\ nd.ub \in {0, 1} THEN "any" ELSE "no"
      [] nd.op \in {"Add", "Subtract", "Negative", "Sum", "NaryAdd", "Size", "QuadraticModel", "Divide", "SquareRoot"} -> "any"
      [] OTHER -> "any"
\* sums and differences of things that can exceed 1 are never logical
ObjectiveVerdict(m, i) == IF StaticSize(m.sh[i]) = 1 THEN "" ELSE "size"
ConstraintVerdict(m, i, S) ==
    IF StaticSize(m.sh[i]) # 1 THEN "size"
    ELSE LET q == LogicalNode(m.g[i], S) IN IF q = "yes" THEN "" ELSE IF q = "no" THEN "logical" ELSE "any"
Feasible(m, s, S) == LET v == Values(m, s, S) IN \A k \in DOMAIN m.cons : v[m.cons[k]].v[1] # 0

(* ---- what a consistent model looks like ---- *)
TypeOK(m) ==
    /\ Len(m.sh) = Len(m.g)
    /\ \A i \in AliveSet(m) : PredSet(m.g, i) \subseteq AliveSet(m)          \* no dangling edges
    /\ m.held \subseteq AliveSet(m)
    /\ m.obj = 0 \/ m.obj \in AliveSet(m)
    /\ \A k \in DOMAIN m.cons : m.cons[k] \in AliveSet(m)
SlotsOK(m, S) ==
    \A k \in DOMAIN m.slots :
        LET sl == m.slots[k] IN
        /\ DOMAIN sl.dec \subseteq Decs(m)
        /\ \A d \in DOMAIN sl.dec : InDomain(m.g[d], sl.dec[d], S)
        /\ ~Locked(m) => sl.has = {}
        \* a symbol has a state only if all its predecessors do
        /\ \A i \in sl.has : \A p \in PredSet(m.g, i) : HasState(m, k - 1, p) \/ p \in sl.may
=============================================================================

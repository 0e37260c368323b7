------------------------------ MODULE MCModel -------------------------------
(* Exhaustive exploration of PyModel on one small instance (instance.json):   *)
(* every sequence of the enabled calls on a model with a few symbols, states, *)
(* and nested locks.  Every transition is printed; the checks walk all of     *)
(* them in the real package (vlib/mcmodel.py).                                *)
(*   prefix  symbols that exist from the start                                *)
(*   menu    what can be constructed: [ar |-> number of operands, nd]         *)
(*   acts    the enabled calls; nmax, smax, lmax, cmax  bounds                *)
EXTENDS PyModel, Moves, Json, TLC

Inst == JsonDeserialize("instance.json")
Sc == Inst.S
On(a) == \E k \in DOMAIN Inst.acts : Inst.acts[k] = a

VARIABLES m, act
vars == <<m, act>>

RECURSIVE Build(_, _)
Build(x, nds) == IF nds = <<>> THEN x ELSE Build(AddNode(x, nds[1], TRUE), Tail(nds))
Init == /\ m = Resize(Build(EmptyModel, Inst.prefix), Inst.slots0)
        /\ act = [e |-> "start"]

N == Len(m.g)
Live == AliveSet(m)
Held == m.held \cap Live
Arrays == {i \in Held : HasArray(m.g, i)}
SlotIds == 0..(Len(m.slots) - 1)
\* a state that exists, one that does not, and the last one counted from the end
Slots == SlotIds \cup {Len(m.slots)}
SlotsN == Slots \cup {-1, -(Len(m.slots) + 1)}
NoFail(v) == v.m

New ==
    /\ On("new") /\ N < Inst.nmax
    /\ \E k \in DOMAIN Inst.menu : \E f \in [1..Inst.menu[k].ar -> Arrays] :
          LET nd == [p |-> [j \in DOMAIN f |-> f[j] - 1]] @@ Inst.menu[k].nd
              j == NewVerdict(m, nd, Sc)
          IN  /\ j \in {"ok", "no"}
              /\ m' = IF j = "ok" THEN AddNode(m, nd, TRUE) ELSE AddRefused(m)
              /\ act' = [e |-> "new", i |-> N, nd |-> nd]
InPlaceAdd ==
    /\ On("iadd") /\ N < Inst.nmax
    /\ \E n, b \in Arrays : \E k \in {"+", "*"} :
          LET ok == ~Locked(m) /\ m.sh[n] = m.sh[b] /\ ~IsDyn(m.sh[b])
              nd == [op |-> IF k = "+" THEN "NaryAdd" ELSE "NaryMultiply", p |-> <<n - 1, b - 1>>, tol |-> 0]
          IN  /\ m' = IF ~ok THEN AddRefused(m) ELSE IF InPlace(m, n, b, k) THEN InPlaceNode(m, n, b) ELSE AddNode(m, nd, TRUE)
              /\ act' = [e |-> "iadd", i |-> N, n |-> n - 1, b |-> b - 1, k |-> k]
LockUnlock ==
    \/ On("lock") /\ m.lock < Inst.lmax /\ m' = LockModel(m) /\ act' = [e |-> "lock"]
    \/ On("lock") /\ m' = UnlockModel(m) /\ act' = [e |-> "unlock"]
States ==
    \/ On("resize") /\ \E n \in -1..Inst.smax : m' = (IF n < 0 THEN m ELSE Resize(m, n)) /\ act' = [e |-> "resize", n |-> n]
    \/ On("clear") /\ m' = Clear(m) /\ act' = [e |-> "clear"]
    \/ On("initialize") /\ m' = (IF Locked(m) THEN InitializeAll(m, Sc) ELSE m) /\ act' = [e |-> "initialize"]
Refusals(d) == IF m.g[d].op \in {"Integer", "Binary"} THEN {[k \in 1..SizeOf(m.g[d].sh) |-> (m.g[d].ub + 1) * Sc], <<>>}
               ELSE IF m.g[d].op = "List" THEN {[k \in 1..m.g[d].n |-> 0], <<>>}
               ELSE IF m.g[d].op = "Set" THEN {<<0, 0>>, <<m.g[d].n * Sc>>} ELSE {<<>>}
Access ==
    \/ /\ On("set")
       /\ \E d \in Decs(m) \cap Held : \E s \in Slots : \E c \in Domain(m.g[d], Sc) \cup Refusals(d) :
             LET v == SetVerdict(m, s, d, c, Sc)
             IN  \* a refused assignment may keep the old contents or drop them
                 /\ v = "domain" => ~HasState(m, s, d)
                 /\ m' = (IF v = "" THEN PutDecision(m, s, d, c) ELSE IF v = "index" THEN m ELSE Forget(m, s, Desc(m, {d})))
                 /\ act' = [e |-> "set", d |-> d - 1, s |-> s, v |-> c, op |-> m.g[d].op]
    \/ /\ On("reset")
       /\ \E i \in Held : \E s \in Slots : m' = (IF SlotOK(m, s) THEN ResetState(m, s, i) ELSE m) /\ act' = [e |-> "reset", n |-> i - 1, s |-> s]
    \/ /\ On("read")
       /\ \E i \in Arrays : \E s \in SlotsN :
             LET v == ReadVerdict(m, s, i)
             IN  v # "any" /\ m' = (IF v = "" THEN ReadState(m, s, i, Sc) ELSE m) /\ act' = [e |-> "read", n |-> i - 1, s |-> s]
    \/ /\ On("has")
       /\ \E i \in Held : \E s \in SlotsN :
             /\ ReadVerdict(m, s, i) # "any"
             /\ ReadVerdict(m, s, i) = "" => ~MayHave(m, SlotIndex(m, s), i)
             /\ m' = m /\ act' = [e |-> "has", n |-> i - 1, s |-> s]
Goals ==
    \/ /\ On("min")
       /\ \E i \in Arrays : LET v == ObjectiveVerdict(m, i)
                            IN  /\ ~(v = "" /\ Locked(m))
                                /\ m' = (IF v = "" THEN [m EXCEPT !.obj = i] ELSE m) /\ act' = [e |-> "min", n |-> i - 1]
    \/ /\ On("con") /\ Len(m.cons) < Inst.cmax
       /\ \E i \in Arrays : LET v == ConstraintVerdict(m, i, Sc)
                            IN  /\ v # "any" /\ ~(v = "" /\ Locked(m))
                                /\ m' = (IF v = "" THEN [m EXCEPT !.cons = Append(@, i)] ELSE m) /\ act' = [e |-> "con", n |-> i - 1]
    \* only questions with one answer, and without effect on which symbols have a state
    \/ /\ On("feas") /\ m.cons # <<>> /\ Locked(m)
       /\ \E s \in SlotIds :
             /\ \A i \in Anc(m, RangeOf(m.cons)) : HasState(m, s, i)
             /\ m' = m /\ act' = [e |-> "feas", s |-> s]
Lifetime ==
    \/ On("remove") /\ m' = (IF Locked(m) THEN m ELSE RemoveUnused(m)) /\ act' = [e |-> "remove"]
    \/ On("drop") /\ \E i \in Held : m' = [m EXCEPT !.held = @ \ {i}] /\ act' = [e |-> "drop", n |-> i - 1]
    \/ On("hold") /\ \E i \in Live \ m.held : m' = [m EXCEPT !.held = @ \cup {i}] /\ act' = [e |-> "hold", n |-> i - 1]
\* questions that change nothing
Questions ==
    /\ m' = m
    /\ \/ On("eq") /\ \E a, b \in Held : act' = [e |-> "eq", a |-> a - 1, b |-> b - 1]
       \/ On("views") /\ act' = [e |-> "views"]
       \/ On("file") /\ \E how \in {"to", "into"} : \E max \in {NONE} \cup 0..Inst.smax : \E only \in {0, 1} :
             act' = [e |-> "file", how |-> how, max |-> max, only |-> only, load |-> ""]
       \/ On("file") /\ \E load \in {"", "states"} : act' = [e |-> "file", how |-> "states", max |-> NONE, only |-> 0, load |-> load]
Next == New \/ InPlaceAdd \/ LockUnlock \/ States \/ Access \/ Goals \/ Lifetime \/ Questions
Spec == Init /\ [][Next]_vars

View == m
Sorted(X) == SetToSortSeq(X, LAMBDA a, b : a < b)
SlotKey(sl) == <<[k \in 1..Cardinality(DOMAIN sl.dec) |-> <<Sorted(DOMAIN sl.dec)[k], sl.dec[Sorted(DOMAIN sl.dec)[k]]>>], Sorted(sl.has), Sorted(sl.may)>>
Key(x) == <<[i \in DOMAIN x.g |-> x.g[i]], Sorted(x.held), Sorted(x.gone), x.obj, x.cons, x.lock, [k \in DOMAIN x.slots |-> SlotKey(x.slots[k])]>>
Emit == PrintT("EDGE " \o ToJson(<<Key(m), act', Key(m')>>))

(* ---- what has to hold ---- *)
TypeInv == TypeOK(m) /\ SlotsOK(m, Sc)
\* C10: a locked model does not change
FrozenProp == [][Locked(m) => SubSeq(m'.g, 1, N) = m.g /\ (\A i \in (N + 1)..Len(m'.g) : ~Alive(m'.g, i)) /\ m'.obj = m.obj /\ m'.cons = m.cons]_vars
\* C11: what is in use stays, with everything it is made of; nothing else does; once is enough
Used(x) == Decs(x) \cup (x.held \cap AliveSet(x)) \cup (IF x.obj = 0 THEN {} ELSE {x.obj}) \cup RangeOf(x.cons)
RemoveProp == [][act'.e = "remove" /\ ~Locked(m) =>
                    /\ Anc(m, Used(m)) \subseteq AliveSet(m')
                    /\ \A i \in AliveSet(m') : m'.g[i] = m.g[i]
                    /\ \A i \in AliveSet(m) \ AliveSet(m') : Desc(m, {i}) \cap Used(m) = {}
                    /\ RemoveUnused(m') = m'
                    /\ m'.obj = m.obj /\ m'.cons = m.cons]_vars
\* C12: a call on one state leaves the others alone; looking changes no values; a value depends on the decisions only
OtherSlotsProp == [][act'.e \in {"set", "reset", "read", "has"} => \A k \in DOMAIN m.slots : k - 1 # SlotIndex(m, act'.s) => m'.slots[k] = m.slots[k]]_vars
LookProp == [][act'.e \in {"read", "has", "initialize", "lock", "unlock", "file"} /\ m' # m => \A s \in SlotIds : Values(m', s, Sc) = Values(m, s, Sc)]_vars
ResizeProp == [][act'.e = "resize" => \A k \in DOMAIN m.slots \cap DOMAIN m'.slots : m'.slots[k] = m.slots[k]]_vars
UnlockProp == [][act'.e = "unlock" => \A k \in DOMAIN m.slots : m'.slots[k].dec = m.slots[k].dec]_vars
\* C14: feasible exactly if every constraint holds
FeasibleInv == \A s \in SlotIds : Feasible(m, s, Sc) = (\A i \in RangeOf(m.cons) : Values(m, s, Sc)[i].v = <<Sc>>)
=============================================================================

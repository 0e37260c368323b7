------------------------------ MODULE MCEngine ------------------------------
(* Exhaustive exploration of Engine on one small instance (instance.json):    *)
(* all states of its decisions in every slot, all calls in every order.       *)
(* Every transition is printed; the checks walk all of them in the real       *)
(* library (vlib/mc.py).                                                      *)
EXTENDS Engine, Moves, Json, TLC

Inst == JsonDeserialize("instance.json")
G == Inst.nodes
Sc == Inst.S
St == ShapesFrom(G, <<>>)
SlotIds == 0..(Inst.slots - 1)
N == Len(G)
Ds == Decisions(G)

VARIABLE act
vars == <<engineVars, act>>

Blank == [i \in 1..N |-> NoValue]
Init == /\ val = [s \in SlotIds |-> Blank] /\ com = val
        /\ phase = [s \in SlotIds |-> "none"]
        /\ act = [e |-> "start"]
Assignments == LET RECURSIVE all(_)
                   all(X) == IF X = {} THEN {<<>>}
                             ELSE LET d == CHOOSE d \in X : \A y \in X : d >= y
                                  IN  {[x \in X |-> IF x = d THEN c ELSE f[x]] : c \in Domain(G[d], Sc), f \in all(X \ {d})}
               IN  all(Ds)
Pairs(f) == SetToSeq({<<d - 1, f[d]>> : d \in Ds})
\* a slot is initialised once; all the others are reached from there
Next ==
    \E s \in SlotIds :
        \/ /\ phase[s] = "none"
           /\ \E f \in Assignments : Initialize(G, St, Sc, s, f) /\ act' = [e |-> "init", s |-> s, dec |-> Pairs(f)]
        \/ \E d \in Ds : \E m \in Calls(G[d], Contents(G, val[s], d), Sc) :
              /\ Move(G, Sc, s, d, m)
              /\ act' = [e |-> "mv", s |-> s, m |-> [d |-> d - 1] @@ m]
        \/ Propagate(G, St, Sc, s) /\ act' = [e |-> "prop", s |-> s]
        \/ Commit(s) /\ act' = [e |-> "com", s |-> s]
        \/ Revert(s) /\ act' = [e |-> "rev", s |-> s]
        \/ \E a \in {0, 1} : Propose(G, St, Sc, s, a = 1) /\ act' = [e |-> "propose", s |-> s, acc |-> a]
        \/ \E t \in SlotIds \ {s} : CopyState(s, t) /\ act' = [e |-> "copy", s |-> s, t |-> t]
        \/ Inst.slots > 1 /\ Drop(s) /\ act' = [e |-> "drop", s |-> s]
Spec == Init /\ [][Next]_vars

View == engineVars
Key(v, c, p) == [s \in SlotIds |-> IF p[s] = "none" THEN <<>> ELSE <<p[s], Pairs(DecisionContents(G, v[s])), Pairs(DecisionContents(G, c[s]))>>]
Emit == PrintT("EDGE " \o ToJson(<<Key(val, com, phase), act', Key(val', com', phase')>>))

(* ---- what has to hold ---- *)
Live == {s \in SlotIds : phase[s] # "none"}
\* C06
DomainInv == \A s \in Live : \A d \in Ds : InDomain(G[d], Contents(G, val[s], d), Sc) /\ InDomain(G[d], Contents(G, com[s], d), Sc)
\* C01
ConsistentInv == \A s \in Live : Consistent(G, St, com[s], Sc) /\ (phase[s] \in {"clean", "prop"} => Consistent(G, St, val[s], Sc))
\* C02
CleanInv == \A s \in Live : phase[s] = "clean" => val[s] = com[s]
\* C06: calls on decisions touch decisions only
FrameInv == \A s \in Live : phase[s] = "moved" => \A i \in 1..N : HasArray(G, i) /\ Functional(G[i]) => val[s][i] = com[s][i]
\* C05
ShapeInv == \A s \in Live : \A i \in 1..N : HasArray(G, i) =>
                /\ SizeOf(val[s][i].sh) = Len(val[s][i].v)
                /\ Len(val[s][i].sh) = Len(St[i])
                /\ \A k \in DOMAIN St[i] : St[i][k] = val[s][i].sh[k] \/ (k = 1 /\ St[i][1] < 0)
\* C15: a step on one slot leaves the others alone; a rejected proposal leaves everything as it was
Own(a) == IF a.e = "copy" THEN {a.t} ELSE {a.s}
IsolationProp == [][\A s \in SlotIds : s \notin Own(act') => val'[s] = val[s] /\ com'[s] = com[s] /\ phase'[s] = phase[s]]_vars
AtomicProp == [][act'.e = "propose" => val'[act'.s] = (IF act'.acc = 0 THEN com[act'.s]
                                                       ELSE EvalAll(G, St, DecisionContents(G, val[act'.s]), Sc))]_vars
RevertProp == [][act'.e = "rev" => val'[act'.s] = com[act'.s]]_vars
=============================================================================

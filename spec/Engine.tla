------------------------------- MODULE Engine -------------------------------
(* The incremental evaluation engine: a directed acyclic graph of nodes and   *)
(* any number of independent states ("slots") of it.                          *)
(*                                                                            *)
(*   val[s]   contents of every node in slot s (a sequence of values)         *)
(*   com[s]   contents at the last initialisation, commit or revert           *)
(*   phase[s] "none" -> "clean" -> "moved" -> "prop" -> "clean" ...           *)
(*                                                                            *)
(* One action per public entry point of Graph / the decision nodes.  The      *)
(* graph g is a sequence of node records (see Ops), st its static shapes.     *)
EXTENDS Graphs

VARIABLES val, com, phase
engineVars == <<val, com, phase>>

(* ---- actions ---- *)
Initialize(g, st, S, s, decs) ==
    /\ \A d \in Decisions(g) : InDomain(g[d], decs[d], S)
    /\ val' = [val EXCEPT ![s] = EvalAll(g, st, decs, S)]
    /\ com' = [com EXCEPT ![s] = val'[s]]
    /\ phase' = [phase EXCEPT ![s] = "clean"]

\* write contents c of decision d into vals
PutContents(g, vals, d, c) ==
    IF Disjoint(g[d])
    THEN LET o == Outputs(g, d)
         IN  [k \in 1..Len(g) |->
                IF \E j \in 1..Len(o) : o[j] = k
                THEN LET j == CHOOSE j \in 1..Len(o) : o[j] = k
                     IN  [sh |-> DecShape(g[k], c[j]), v |-> c[j]]
                ELSE vals[k]]
    ELSE [vals EXCEPT ![d] = [sh |-> DecShape(g[d], c), v |-> c]]

\* a mutator of one decision: touches that decision only
Move(g, S, s, d, m) ==
    /\ phase[s] \in {"clean", "moved"}
    /\ \E c \in After(g[d], m, Contents(g, val[s], d), S) :
          val' = [val EXCEPT ![s] = PutContents(g, val[s], d, c)]
    /\ phase' = [phase EXCEPT ![s] = "moved"]
    /\ UNCHANGED com

Propagate(g, st, S, s) ==
    /\ phase[s] \in {"clean", "moved"}
    /\ val' = [val EXCEPT ![s] = EvalAll(g, st, DecisionContents(g, val[s]), S)]
    /\ phase' = [phase EXCEPT ![s] = "prop"]
    /\ UNCHANGED com

Commit(s) ==
    /\ phase[s] = "prop"
    /\ com' = [com EXCEPT ![s] = val[s]]
    /\ phase' = [phase EXCEPT ![s] = "clean"]
    /\ UNCHANGED val

Revert(s) ==
    /\ phase[s] = "prop"
    /\ val' = [val EXCEPT ![s] = com[s]]
    /\ phase' = [phase EXCEPT ![s] = "clean"]
    /\ UNCHANGED com

\* Graph::propose = propagate, then commit or revert, as one step for the caller
Propose(g, st, S, s, accept) ==
    /\ phase[s] \in {"clean", "moved"}
    /\ LET new == EvalAll(g, st, DecisionContents(g, val[s]), S)
           end == IF accept THEN new ELSE com[s]
       IN  /\ val' = [val EXCEPT ![s] = end]
           /\ com' = [com EXCEPT ![s] = end]
    /\ phase' = [phase EXCEPT ![s] = "clean"]

CopyState(s, t) ==
    /\ phase[s] = "clean"
    /\ val' = [val EXCEPT ![t] = val[s]]
    /\ com' = [com EXCEPT ![t] = com[s]]
    /\ phase' = [phase EXCEPT ![t] = "clean"]

\* a state is given up
Drop(s) ==
    /\ phase[s] # "none"
    /\ val' = [val EXCEPT ![s] = [i \in DOMAIN @ |-> NoValue]]
    /\ com' = [com EXCEPT ![s] = [i \in DOMAIN @ |-> NoValue]]
    /\ phase' = [phase EXCEPT ![s] = "none"]
=============================================================================

------------------------------ MODULE MCStates ------------------------------
(* One decision variable and every explicit state a caller might assign to    *)
(* it, valid or not.                                                          *)
EXTENDS Moves, Json, TLC

Inst == JsonDeserialize("instance.json")
Sc == Inst.S
Nd == Inst.nodes[1]
All == Universe(Nd, Sc)
Legal == Domain(Nd, Sc)
\* the two descriptions of the domain agree, and the default is part of it
ASSUME Legal = {c \in All : InDomain(Nd, c, Sc)}
ASSUME DefaultState(Nd, Sc) \in Legal
\* calls lead from the domain to the domain, and any state to any other
ASSUME \A c \in Legal : \A m \in Calls(Nd, c, Sc) : After(Nd, m, c, Sc) \subseteq Legal

VARIABLES con, act          \* con: <<>> (no state) or <<contents>>
vars == <<con, act>>
Init == con = <<>> /\ act = [e |-> "start"]
\* a refused assignment leaves the variable without a state
Next == /\ con = <<>>
        /\ \E c \in All : LET ok == InDomain(Nd, c, Sc)
                          IN  con' = (IF ok THEN <<c>> ELSE <<>>) /\ act' = [e |-> "init", c |-> c, ok |-> ok]
Spec == Init /\ [][Next]_vars
View == con
Emit == PrintT("EDGE " \o ToJson(<<"x", act', "y">>))
StoredInv == \A i \in DOMAIN con : con[i] \in Legal
=============================================================================

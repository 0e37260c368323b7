------------------------------ MODULE GenTrace ------------------------------
(* Validates what the generators did with recorded instances and assignments. *)
EXTENDS Generators, Json, TLC

CONSTANT Prop
T == ndJsonDeserialize("trace.ndjson")
VARIABLES sc, l, err
vars == <<sc, l, err>>

Steps == T[sc].steps
Sc == T[sc].S
Check(name, ok) == IF ok THEN {} ELSE {<<name, -1>>}

RunErr(c, r, x) ==
    LET en == Cost(c.name, c.a, x, Sc)
        fe == Feasible(c.name, c.a, x, Sc)
    IN  Check("cost", r.en = <<en>> /\ r.x = 0)
        \cup Check("feasible", (r.fe = 1) = fe)
GenErr(c) ==
    LET undetermined == c.name \in {"quadratic_assignment", "traveling_salesperson"} /\ c.a.dist = <<>>
        valid == c.junk = 0 /\ Valid(c.name, c.a)
    IN
    Check("the caller's arguments were modified", c.args = 1)
    \cup IF undetermined THEN {}
         ELSE IF ~valid THEN Check("an invalid instance was accepted", c.exc # "")
         ELSE IF c.exc # "" THEN {<<"a valid instance was refused", -1>>}
         ELSE Check("locked", c.name = "cqm" \/ c.lk = 1)
              \cup Check("objective", c.obj = 1)
              \cup (IF Len(c.decs) # 1 THEN {<<"decisions", -1>>} ELSE Check("decisions", DecisionOK(c.name, c.a, c.decs[1], Sc)))
              \cup UNION {RunErr(c, c.runs[k], c.assign[k]) : k \in DOMAIN c.runs}
              \cup Check("runs", Len(c.runs) = Len(c.assign))

TraceInit == sc \in 1..Len(T) /\ l = 0 /\ err = {}
TraceNext ==
    /\ l < Len(Steps)
    /\ err = {}
    /\ l' = l + 1
    /\ sc' = sc
    /\ err' = IF Steps[l + 1].e = "crash" THEN {<<"crash", -1>>} ELSE GenErr(Steps[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == IF err = {} THEN TRUE ELSE PrintT(<<"REJECT", T[sc].id, l, IF l > 0 THEN Steps[l].e ELSE "start", err>>) /\ FALSE
=============================================================================

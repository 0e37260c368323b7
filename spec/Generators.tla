----------------------------- MODULE Generators -----------------------------
(* The problems behind dwave.optimization.generators, as a textbook defines them: which instances
   are valid, which decisions a model of the instance has, what an assignment costs and when it is
   feasible.  Every number of an instance is a whole multiple of 1/S, given as that multiple. *)
EXTENDS NdArray

\* a[i], 0-based
At0(a, i) == a[i + 1]
Cell(a, i, j) == a[i + 1][j + 1]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Total(s) == SumTo(s, Len(s))
Rect(a) == \A k \in DOMAIN a : Len(a[k]) = Len(a[1])
Square(a) == \A k \in DOMAIN a : Len(a[k]) = Len(a)
NonNeg1(s) == \A k \in DOMAIN s : s[k] >= 0
NonNeg2(a) == \A k \in DOMAIN a : NonNeg1(a[k])
Given(a, k) == k \in DOMAIN a

(* ---- the distances of a routing instance (location 0 is the depot) ---- *)
Root2(n) == CHOOSE k \in 0..200 : k * k = n        \* instances are generated with whole distances
Points(a) ==
    IF Given(a, "depot") THEN <<a.depot>> \o [k \in DOMAIN a.lx |-> <<a.lx[k], a.ly[k]>>]
    ELSE [k \in DOMAIN a.lx |-> <<a.lx[k], a.ly[k]>>]
Dist(a) ==
    IF Given(a, "dist") THEN a.dist
    ELSE LET p == Points(a) IN
         [i \in DOMAIN p |-> [j \in DOMAIN p |-> Root2((p[i][1] - p[j][1]) * (p[i][1] - p[j][1]) + (p[i][2] - p[j][2]) * (p[i][2] - p[j][2]))]]
\* demand of the customers, in the order of the decision's elements
Demand(a) == IF Given(a, "depot") THEN a.dem ELSE Tail(a.dem)
Customers(a) == Len(Demand(a))

(* ---- which instances are valid ---- *)
RouteArgs(a) ==
    /\ a.nv >= 1 /\ a.cap > 0
    /\ NonNeg1(a.dem) /\ Total(a.dem) <= a.nv * a.cap
Valid(name, a) ==
    CASE name = "cqm" -> TRUE
      [] name = "bin_packing" -> a.w # <<>> /\ NonNeg1(a.w) /\ a.cap > 0 /\ \A k \in DOMAIN a.w : a.w[k] <= a.cap
      [] name = "knapsack" -> Len(a.w) = Len(a.v) /\ NonNeg1(a.w) /\ NonNeg1(a.v) /\ a.cap > 0
      [] name = "quadratic_assignment" -> Square(a.dist) /\ Square(a.flow) /\ Len(a.dist) = Len(a.flow) /\ NonNeg2(a.dist) /\ NonNeg2(a.flow)
      [] name = "traveling_salesperson" -> Square(a.dist) /\ NonNeg2(a.dist)
      [] name = "flow_shop_scheduling" -> a.t # <<>> /\ a.t[1] # <<>> /\ Rect(a.t) /\ NonNeg2(a.t)
      [] name = "job_shop_scheduling" ->
            /\ a.t # <<>> /\ a.t[1] # <<>> /\ Rect(a.t) /\ NonNeg2(a.t)
            /\ Len(a.m) = Len(a.t) /\ \A j \in DOMAIN a.m : Len(a.m[j]) = Len(a.t[1])
            /\ \E base \in {0, 1} : \A j \in DOMAIN a.m : {a.m[j][k] : k \in DOMAIN a.m[j]} = base..(base + Len(a.t[1]) - 1)
            /\ Given(a, "ub") => a.ub >= 1
      [] name = "capacitated_vehicle_routing" ->
            /\ RouteArgs(a)
            /\ IF Given(a, "dist")
               THEN /\ ~Given(a, "lx") /\ ~Given(a, "ly") /\ ~Given(a, "depot")
                    /\ Square(a.dist) /\ NonNeg2(a.dist) /\ Len(a.dist) >= 2 /\ Len(a.dem) = Len(a.dist) /\ a.dem[1] = 0
               ELSE /\ Given(a, "lx") /\ Given(a, "ly")
                    /\ Len(a.lx) = Len(a.dem) /\ Len(a.ly) = Len(a.dem) /\ Len(a.dem) >= 1
                    /\ IF a.dem[1] = 0 THEN Len(a.dem) >= 2 /\ ~Given(a, "depot") ELSE Given(a, "depot")
            /\ \A k \in DOMAIN a.dem : a.dem[k] = 0 => k = 1
      [] name = "capacitated_vehicle_routing_with_time_windows" ->
            /\ RouteArgs(a)
            /\ Square(a.dist) /\ NonNeg2(a.dist) /\ Len(a.dist) >= 2 /\ Len(a.dem) = Len(a.dist)
            /\ Len(a.open) = Len(a.dem) /\ Len(a.close) = Len(a.dem) /\ Len(a.svc) = Len(a.dem)
            /\ NonNeg1(a.open) /\ NonNeg1(a.close) /\ NonNeg1(a.svc)
            /\ a.dem[1] = 0 /\ \A k \in DOMAIN a.dem : a.dem[k] = 0 => k = 1

(* ---- the decision: [t, sh or k, ...] ---- *)
Makespan(a) == SumTo([j \in DOMAIN a.t |-> Total(a.t[j])], Len(a.t))
DecisionOK(name, a, d, S) ==
    CASE name = "cqm" -> d.t = "Binary" /\ d.sh = <<a.n>>
      [] name = "bin_packing" -> d.t = "DisjointBitSets" /\ d.k = Len(a.w)
      [] name = "knapsack" -> d.t = "Set" /\ d.sh = <<-1>>
      [] name = "quadratic_assignment" -> d.t = "List" /\ d.sh = <<Len(a.dist)>>
      [] name = "traveling_salesperson" -> d.t = "List" /\ d.sh = <<Len(a.dist)>>
      [] name = "flow_shop_scheduling" -> d.t = "List" /\ d.sh = <<Len(a.t[1])>>
      [] name = "job_shop_scheduling" ->
            /\ d.t = "Integer" /\ d.sh = <<Len(a.t), Len(a.t[1])>> /\ d.lb = 0
            /\ d.ub * S = IF Given(a, "ub") THEN a.ub ELSE Makespan(a)
      [] name \in {"capacitated_vehicle_routing", "capacitated_vehicle_routing_with_time_windows"} -> d.t = "DisjointLists" /\ d.k = a.nv

(* ---- cost and feasibility of an assignment x ---- *)
Load(w, r) == SumTo([k \in DOMAIN r |-> At0(w, r[k])], Len(r))
RouteCost(D, r) ==       \* r: customers 1.. (0 is the depot)
    IF r = <<>> THEN 0
    ELSE LET t == <<0>> \o r \o <<0>> IN SumTo([k \in 1..(Len(t) - 1) |-> Cell(D, t[k], t[k + 1])], Len(t) - 1)
Stops(r) == [k \in DOMAIN r |-> r[k] + 1]
RECURSIVE Leave(_, _, _)
Leave(a, r, k) ==        \* when the vehicle leaves its k-th stop
    LET from == IF k = 1 THEN 0 ELSE r[k - 1]
        start == IF k = 1 THEN 0 ELSE Leave(a, r, k - 1)
        arrive == start + Cell(a.dist, from, r[k])
    IN  (IF arrive < At0(a.open, r[k]) THEN At0(a.open, r[k]) ELSE arrive) + At0(a.svc, r[k])
RouteOnTime(a, r) ==
    \/ r = <<>>
    \/ /\ \A k \in DOMAIN r : Leave(a, r, k) <= At0(a.close, r[k])
       /\ Leave(a, r, Len(r)) + Cell(a.dist, r[Len(r)], 0) <= a.close[1]
RECURSIVE EndTime(_, _, _, _)
EndTime(t, p, m, j) ==   \* flow shop: when the j-th job of permutation p leaves machine m
    IF m = 0 \/ j = 0 THEN 0
    ELSE LET u == EndTime(t, p, m - 1, j)
             l == EndTime(t, p, m, j - 1)
         IN  (IF u > l THEN u ELSE l) + Cell(t, m - 1, p[j])
JobStart(a, x, j, m, S) == x[(j - 1) * Len(a.t[1]) + m] * S      \* x: flat, whole numbers
JobEnd(a, x, j, m, S) == JobStart(a, x, j, m, S) + a.t[j][m]
Base(a) == IF \A j \in DOMAIN a.m : \A k \in DOMAIN a.m[j] : a.m[j][k] # 0 THEN 1 ELSE 0
JobShopOK(a, x, S) ==
    LET J == DOMAIN a.t
        M == 1..Len(a.t[1])
        mach(j, k) == a.m[j][k] - Base(a) + 1
    IN  /\ \A j \in J : \A k \in 1..(Len(a.t[1]) - 1) : JobEnd(a, x, j, mach(j, k), S) <= JobStart(a, x, j, mach(j, k + 1), S)
        /\ \A i \in J : \A j \in J : \A m \in M :
               i < j => \/ JobEnd(a, x, i, m, S) <= JobStart(a, x, j, m, S)
                        \/ JobEnd(a, x, j, m, S) <= JobStart(a, x, i, m, S)
SetMaxOf(s) == CHOOSE v \in s : \A w \in s : w <= v

\* a polynomial of degree two over binary variables
Poly(p, x) == p.off + SumTo([k \in DOMAIN p.lin |-> p.lin[k][2] * x[p.lin[k][1] + 1]], Len(p.lin))
                    + SumTo([k \in DOMAIN p.quad |-> p.quad[k][3] * x[p.quad[k][1] + 1] * x[p.quad[k][2] + 1]], Len(p.quad))
CqmHolds(c, x) ==
    LET v == Poly(c, x) IN CASE c.sense = "==" -> v = c.rhs [] c.sense = "<=" -> v <= c.rhs [] c.sense = ">=" -> v >= c.rhs

Cost(name, a, x, S) ==
    CASE name = "cqm" -> Poly(a.obj, x)
      [] name = "bin_packing" -> S * Cardinality({b \in DOMAIN x : \E i \in DOMAIN x[b] : x[b][i] = 1})
      [] name = "knapsack" -> -Load(a.v, x)
      [] name = "quadratic_assignment" ->
            LET n == Len(x) IN
            SumTo([i \in 1..n |-> SumTo([j \in 1..n |-> (a.flow[i][j] * Cell(a.dist, x[i], x[j])) \div S], n)], n)
      [] name = "traveling_salesperson" ->
            LET n == Len(x) IN SumTo([k \in 1..n |-> Cell(a.dist, x[k], x[IF k = n THEN 1 ELSE k + 1])], n)
      [] name = "flow_shop_scheduling" -> EndTime(a.t, x, Len(a.t), Len(a.t[1]))
      [] name = "job_shop_scheduling" -> SetMaxOf({JobEnd(a, x, c[1], c[2], S) : c \in (DOMAIN a.t) \X (1..Len(a.t[1]))})
      [] OTHER -> SumTo([v \in DOMAIN x |-> RouteCost(Dist(a), Stops(x[v]))], Len(x))
Feasible(name, a, x, S) ==
    CASE name = "cqm" -> \A k \in DOMAIN a.cons : CqmHolds(a.cons[k], x)
      [] name = "bin_packing" -> \A b \in DOMAIN x : SumTo([i \in DOMAIN a.w |-> x[b][i] * a.w[i]], Len(a.w)) <= a.cap
      [] name = "knapsack" -> Load(a.w, x) <= a.cap
      [] name = "job_shop_scheduling" -> JobShopOK(a, x, S)
      [] name = "capacitated_vehicle_routing" -> \A v \in DOMAIN x : Load(Demand(a), x[v]) <= a.cap
      [] name = "capacitated_vehicle_routing_with_time_windows" ->
            \A v \in DOMAIN x : Load(Demand(a), x[v]) <= a.cap /\ RouteOnTime(a, Stops(x[v]))
      [] OTHER -> TRUE
=============================================================================

---------------------------------- MODULE Shipped ------------------------------
(* The models shipped with the package, as the linear problem each contributes:   *)
(* antares-historic, andromede-v1-models and pypsa_models.  Nothing here is taken *)
(* from the text of the libraries: for every component, step and scenario the     *)
(* variables with their bounds, the rows and the cost are written out.            *)
(*                                                                                *)
(* sys = [T, S, comps : <<[id, model]>>, conns : <<[c1, p1, c2, p2]>>,            *)
(*        data : [id -> [parameter -> T x S matrix]]]     (time is cyclic)        *)
EXTENDS Build
SCyc(sys, t) == (t + 64 * sys.T) % sys.T
SP(sys, c, p, t, s) == sys.data[c.id][p][SCyc(sys, t) + 1][s + 1]
SC(sys, c, p)       == sys.data[c.id][p][1][1]
SV(sys, c, n, t, s) == LVar(<<c.id, n, SCyc(sys, t), s>>)
SI(c, n)            == LVar(<<c.id, n, -1, -1>>)
Minus(a, b) == LAdd(a, LScale(R(-1), b))
IntOf(r) == r[1]                      \* durations are whole numbers
Recent(sys, d, f(_)) == LSum([k \in 1..d |-> f(k - 1)])

\* ----------------------------------------------------------------- variables
\* <<name, varies with time and scenario, integer>>
SVars(c) ==
  CASE c.model = "area"      -> {<<"spillage", TRUE, FALSE>>, <<"unsupplied_energy", TRUE, FALSE>>}
    [] c.model = "link"      -> {<<"flow_direct", TRUE, FALSE>>, <<"flow_indirect", TRUE, FALSE>>, <<"flow", TRUE, FALSE>>}
    [] c.model = "thermal"   -> {<<"generation", TRUE, FALSE>>, <<"nb_units_on", TRUE, TRUE>>, <<"nb_starting", TRUE, TRUE>>,
                                 <<"nb_stopping", TRUE, TRUE>>, <<"nb_failing", TRUE, FALSE>>}
    [] c.model \in {"short-term-storage", "battery"}
                             -> {<<"p_injection", TRUE, FALSE>>, <<"p_withdrawal", TRUE, FALSE>>, <<"level", TRUE, FALSE>>}
    [] c.model = "dsr"       -> {<<"curtailment", TRUE, FALSE>>}
    [] c.model = "electrolyser" -> {<<"power", TRUE, FALSE>>}
    [] c.model = "generator" -> {<<"p_nom", FALSE, FALSE>>, <<"p", TRUE, FALSE>>}
    [] c.model = "plink"     -> {<<"p_nom", FALSE, FALSE>>, <<"p0", TRUE, FALSE>>}
    [] c.model = "storage_unit" -> {<<"p_nom", FALSE, FALSE>>, <<"p_store", TRUE, FALSE>>, <<"p_dispatch", TRUE, FALSE>>,
                                    <<"state_of_charge", TRUE, FALSE>>, <<"spill", TRUE, FALSE>>}
    [] c.model = "store"     -> {<<"e_nom", FALSE, FALSE>>, <<"e", TRUE, FALSE>>, <<"p", TRUE, FALSE>>}
    [] OTHER -> {}
Free == {<<"link", "flow">>, <<"generator", "p">>, <<"plink", "p0">>, <<"store", "e">>, <<"store", "p">>}
SLb(sys, c, n, t, s) ==
  CASE <<c.model, n>> \in Free -> RNegInf
    [] c.model = "thermal" /\ n = "generation"  -> SP(sys, c, "p_min_cluster", t, s)
    [] c.model = "thermal" /\ n = "nb_units_on" -> SP(sys, c, "nb_units_min", t, s)
    [] n = "level" -> RMul(SP(sys, c, "lower_rule_curve", t, s), SC(sys, c, "reservoir_capacity"))
    [] n = "p_nom" -> SC(sys, c, "p_nom_min")
    [] n = "e_nom" -> SC(sys, c, "e_nom_min")
    [] OTHER -> RZero
SUb(sys, c, n, t, s) ==
  CASE <<c.model, n>> \in Free -> RInf
    [] n = "flow_direct"   -> SP(sys, c, "capacity_direct", t, s)
    [] n = "flow_indirect" -> SP(sys, c, "capacity_indirect", t, s)
    [] c.model = "thermal" /\ n = "generation" -> SP(sys, c, "p_max_cluster", t, s)
    [] n \in {"nb_units_on", "nb_starting"}    -> SP(sys, c, "nb_units_max", t, s)
    [] n = "p_injection"  -> RMul(SP(sys, c, "p_max_injection_modulation", t, s), SC(sys, c, "injection_nominal_capacity"))
    [] n = "p_withdrawal" -> RMul(SP(sys, c, "p_max_withdrawal_modulation", t, s), SC(sys, c, "withdrawal_nominal_capacity"))
    [] n = "level"        -> RMul(SP(sys, c, "upper_rule_curve", t, s), SC(sys, c, "reservoir_capacity"))
    [] n = "curtailment"  -> SP(sys, c, "max_load", t, s)
    [] n = "power"        -> SP(sys, c, "p_max", t, s)
    [] n = "p_nom"        -> SC(sys, c, "p_nom_max")
    [] n = "e_nom"        -> SC(sys, c, "e_nom_max")
    [] n = "spill"        -> SP(sys, c, "inflow", t, s)
    [] n = "p_dispatch"   -> RMul(SP(sys, c, "p_max_pu", t, s), SC(sys, c, "p_nom_max"))
    [] n = "p_store"      -> RMul(RNeg(SP(sys, c, "p_min_pu", t, s)), SC(sys, c, "p_nom_max"))
    [] n = "state_of_charge" -> RMul(SC(sys, c, "max_hours"), SC(sys, c, "p_nom_max"))
    [] OTHER -> RInf

\* ------------------------------------------- what a component sends through a port
Sends(sys, c, p, t, s) ==
  LET v(n) == SV(sys, c, n, t, s)  q(n) == SP(sys, c, n, t, s)
  IN CASE c.model = "load"  -> LConst(RNeg(q("load")))
       [] c.model = "link"  -> LScale(R(IF p = "out_port" THEN 1 ELSE -1), v("flow"))
       [] c.model \in {"renewable"} -> LConst(q("generation"))
       [] c.model = "thermal" -> v("generation")
       [] c.model \in {"short-term-storage", "battery"} -> Minus(v("p_withdrawal"), v("p_injection"))
       [] c.model = "dsr"   -> LAdd(LConst(RNeg(q("max_load"))), v("curtailment"))
       [] c.model = "electrolyser" -> IF p = "power_port" THEN LScale(R(-1), v("power")) ELSE LScale(q("efficiency"), v("power"))
       [] c.model = "pload" -> LConst(RMul(q("sign"), q(IF p = "p_balance_port" THEN "p_set" ELSE "q_set")))
       [] c.model = "generator" -> IF p = "p_balance_port" THEN LScale(q("sign"), v("p"))
                                   ELSE LScale(RDiv(q("emission_factor"), q("efficiency")), v("p"))
       [] c.model = "plink" -> IF p = "p0_port" THEN LScale(R(-1), v("p0")) ELSE LScale(q("efficiency"), v("p0"))
       [] c.model = "storage_unit" -> IF p = "p_balance_port" THEN Minus(v("p_dispatch"), v("p_store")) ELSE LConst(RZero)
       [] c.model = "store" -> IF p = "p_balance_port" THEN v("p") ELSE LConst(RZero)
\* does what it sends vary (with time and scenario)
Varies(c, p) == ~(c.model \in {"storage_unit", "store"} /\ p = "emission_port")
SComp2(sys, id) == sys.comps[CHOOSE j \in DOMAIN sys.comps : sys.comps[j].id = id]
\* the other ends of the connections of port p of component c
Ends(sys, c, p) ==
  LET one(k) == IF k.c1 = c.id /\ k.p1 = p THEN <<k.c2, k.p2>> ELSE <<k.c1, k.p1>>
      ks == SetToSortSeq({j \in DOMAIN sys.conns : \/ sys.conns[j].c1 = c.id /\ sys.conns[j].p1 = p
                                                   \/ sys.conns[j].c2 = c.id /\ sys.conns[j].p2 = p}, <)
  IN [j \in DOMAIN ks |-> one(sys.conns[ks[j]])]
Received(sys, c, p, t, s) == LSum([j \in DOMAIN Ends(sys, c, p) |-> Sends(sys, SComp2(sys, Ends(sys, c, p)[j][1]), Ends(sys, c, p)[j][2], t, s)])
Moves(sys, c, p) == \E j \in DOMAIN Ends(sys, c, p) : Varies(SComp2(sys, Ends(sys, c, p)[j][1]), Ends(sys, c, p)[j][2])

\* ---------------------------------------------------------------------- rows
\* [n, t, s, e, lo, hi]:  lo <= e <= hi
Row(n, t, s, e, lo, hi) == [n |-> n, t |-> t, s |-> s, e |-> e, lo |-> lo, hi |-> hi]
EqRow(n, t, s, e) == Row(n, t, s, e, RZero, RZero)
LeRow(n, t, s, e) == Row(n, t, s, e, RNegInf, RZero)
TS(sys) == (0..(sys.T - 1)) \X (0..(sys.S - 1))
TSIf(sys, b) == IF b THEN TS(sys) ELSE {<<0, 0>>}
OverTime(sys, f(_)) == LSum([k \in 1..sys.T |-> f(k - 1)])
SRows(sys, c) ==
  LET v(n, t, s) == SV(sys, c, n, t, s)
      q(n, t, s) == SP(sys, c, n, t, s)
      k(n) == SC(sys, c, n)
  IN CASE c.model = "area" ->
            {EqRow("balance", x[1], x[2],
                   Minus(Received(sys, c, "balance_port", x[1], x[2]),
                         Minus(v("spillage", x[1], x[2]), v("unsupplied_energy", x[1], x[2])))) : x \in TS(sys)}
       [] c.model = "link" ->
            {EqRow("flow_direct_indirect", x[1], x[2],
                   Minus(v("flow", x[1], x[2]), Minus(v("flow_direct", x[1], x[2]), v("flow_indirect", x[1], x[2])))) : x \in TS(sys)}
       [] c.model = "thermal" ->
            UNION {LET t == x[1]  s == x[2]  on == v("nb_units_on", t, s)  du == IntOf(k("d_min_up"))  dd == IntOf(k("d_min_down")) IN
              {LeRow("max_generation", t, s, Minus(v("generation", t, s), LScale(k("p_max_unit"), on))),
               LeRow("min_generation", t, s, Minus(LScale(k("p_min_unit"), on), v("generation", t, s))),
               EqRow("on_units_dynamics", t, s,
                     LSum(<<on, LScale(R(-1), v("nb_units_on", t - 1, s)), LScale(R(-1), v("nb_starting", t, s)), v("nb_stopping", t, s)>>)),
               LeRow("nb_failing_lower_than_stopping", t, s, Minus(v("nb_failing", t, s), v("nb_stopping", t, s))),
               LeRow("nb_failing_lower_than_max_variation", t, s,
                     Minus(v("nb_failing", t, s), LConst(q("nb_units_max_variation_forward", t, s)))),
               LeRow("min_up_duration", t, s,
                     Minus(Recent(sys, du, LAMBDA d : Minus(v("nb_starting", t - d, s), v("nb_failing", t - d, s))), on)),
               LeRow("min_down_duration", t, s,
                     LSum(<<Recent(sys, dd, LAMBDA d : v("nb_stopping", t - d, s)), on,
                            LConst(RNeg(q("nb_units_max", t - dd, s))),
                            Recent(sys, dd, LAMBDA d : LConst(RNeg(q("nb_units_max_variation_backward", t - d, s))))>>))}
              : x \in TS(sys)}
       [] c.model \in {"short-term-storage", "battery"} ->
            LET st == c.model = "short-term-storage" IN
            {EqRow(IF st THEN "Level equation" ELSE "level_equation", x[1], x[2],
                   LSum(<<v("level", x[1] + 1, x[2]), LScale(R(-1), v("level", x[1], x[2])),
                          LScale(RNeg(k("efficiency_injection")), v("p_injection", x[1], x[2])),
                          LScale(k("efficiency_withdrawal"), v("p_withdrawal", x[1], x[2])),
                          LConst(IF st THEN RNeg(q("inflows", x[1], x[2])) ELSE RZero)>>)) : x \in TS(sys)}
            \cup (IF st THEN {EqRow("initial_level", 0, s, Minus(v("level", 0, s), LConst(RMul(k("initial_level"), k("reservoir_capacity")))))
                              : s \in 0..(sys.S - 1)} ELSE {})
       [] c.model = "bus" ->
            {EqRow("p_balance", x[1], x[2], Received(sys, c, "p_balance_port", x[1], x[2])) : x \in TSIf(sys, Moves(sys, c, "p_balance_port"))}
            \cup {EqRow("q_balance", x[1], x[2], Received(sys, c, "q_balance_port", x[1], x[2])) : x \in TSIf(sys, Moves(sys, c, "q_balance_port"))}
       [] c.model = "generator" ->
            UNION {{LeRow("min_dispatch", x[1], x[2], Minus(LScale(q("p_min_pu", x[1], x[2]), SI(c, "p_nom")), v("p", x[1], x[2]))),
                    LeRow("max_dispatch", x[1], x[2], Minus(v("p", x[1], x[2]), LScale(q("p_max_pu", x[1], x[2]), SI(c, "p_nom"))))} : x \in TS(sys)}
            \cup UNION {{Row("min_production", 0, s, OverTime(sys, LAMBDA t : v("p", t, s)), k("e_sum_min"), RInf),
                         Row("max_production", 0, s, OverTime(sys, LAMBDA t : v("p", t, s)), RNegInf, k("e_sum_max"))} : s \in 0..(sys.S - 1)}
       [] c.model = "plink" ->
            UNION {{LeRow("p0_upper", x[1], x[2], Minus(v("p0", x[1], x[2]), LScale(q("p_max_pu", x[1], x[2]), SI(c, "p_nom")))),
                    LeRow("p0_lower", x[1], x[2], Minus(LScale(q("p_min_pu", x[1], x[2]), SI(c, "p_nom")), v("p0", x[1], x[2])))} : x \in TS(sys)}
       [] c.model = "storage_unit" ->
            UNION {LET t == x[1]  s == x[2]  room == LScale(q("p_max_pu", t, s), SI(c, "p_nom")) IN
              {LeRow("p_store_upper", t, s, LAdd(v("p_store", t, s), LScale(q("p_min_pu", t, s), SI(c, "p_nom")))),
               LeRow("p_dispatch_upper", t, s, Minus(v("p_dispatch", t, s), room)),
               LeRow("state_of_charge_upper", t, s, Minus(v("state_of_charge", t, s), LScale(k("max_hours"), SI(c, "p_nom")))),
               EqRow("state_of_charge_balance", t, s,
                     LSum(<<v("state_of_charge", t, s),
                            LScale(RSub(q("standing_loss", t, s), ROne), v("state_of_charge", t - 1, s)),
                            LScale(RNeg(q("efficiency_store", t, s)), v("p_store", t, s)),
                            LScale(RInv(q("efficiency_dispatch", t, s)), v("p_dispatch", t, s)),
                            LConst(RNeg(q("inflow", t, s))), v("spill", t, s)>>))}
              : x \in TS(sys)}
       [] c.model = "store" ->
            UNION {LET t == x[1]  s == x[2] IN
              {LeRow("e_upper", t, s, Minus(v("e", t, s), LScale(q("e_max_pu", t, s), SI(c, "e_nom")))),
               LeRow("e_lower", t, s, Minus(LScale(q("e_min_pu", t, s), SI(c, "e_nom")), v("e", t, s))),
               EqRow("energy_balance", t, s,
                     LSum(<<v("e", t, s), LScale(RSub(q("standing_loss", t, s), ROne), v("e", t - 1, s)), v("p", t, s)>>))}
              : x \in TS(sys)}
       [] c.model \in {"global_constraint_co2_max", "global_constraint_co2_eq"} ->
            {Row("constraint_expression", 0, s, OverTime(sys, LAMBDA t : Received(sys, c, "emission_port", t, s)),
                 IF c.model = "global_constraint_co2_eq" THEN k("quota") ELSE RNegInf, k("quota"))
             : s \in IF Moves(sys, c, "emission_port") THEN 0..(sys.S - 1) ELSE {0}}
       [] OTHER -> {}

\* ---------------------------------------------------------------------- cost
SCost(sys, c) ==
  LET all(f(_, _)) == LScale(<<1, sys.S>>, LSum([j \in 1..(sys.T * sys.S) |-> f((j - 1) % sys.T, (j - 1) \div sys.T)]))
      w(p, n, t, s) == LScale(SP(sys, c, p, t, s), SV(sys, c, n, t, s))
  IN CASE c.model = "area"    -> all(LAMBDA t, s : LAdd(w("spillage_cost", "spillage", t, s), w("ens_cost", "unsupplied_energy", t, s)))
       [] c.model = "thermal" -> all(LAMBDA t, s : LSum(<<w("generation_cost", "generation", t, s), w("startup_cost", "nb_starting", t, s),
                                                          w("fixed_cost", "nb_units_on", t, s)>>))
       [] c.model = "battery" -> all(LAMBDA t, s : w("marginal_cost", "p_injection", t, s))
       [] c.model = "dsr"     -> all(LAMBDA t, s : w("curtailment_price", "curtailment", t, s))
       [] c.model = "generator" -> LAdd(all(LAMBDA t, s : w("marginal_cost", "p", t, s)), LScale(SC(sys, c, "capital_cost"), SI(c, "p_nom")))
       [] c.model = "plink"   -> LAdd(all(LAMBDA t, s : w("marginal_cost", "p0", t, s)), LScale(SC(sys, c, "capital_cost"), SI(c, "p_nom")))
       [] c.model = "storage_unit" ->
            LAdd(all(LAMBDA t, s : LSum(<<w("marginal_cost", "p_dispatch", t, s), w("spill_cost", "spill", t, s),
                                          w("marginal_cost_storage", "state_of_charge", t, s)>>)),
                 LScale(SC(sys, c, "capital_cost"), SI(c, "p_nom")))
       [] c.model = "store"   ->
            LAdd(all(LAMBDA t, s : LAdd(w("marginal_cost", "p", t, s), w("marginal_cost_storage", "e", t, s))),
                 LScale(SC(sys, c, "capital_cost"), SI(c, "e_nom")))
       [] OTHER -> LConst(RZero)

\* ------------------------------------------------------------------- problem
SReq(sys) == [full |-> TRUE, tree |-> "", block |-> [j \in 1..sys.T |-> j], S |-> sys.S]
SName(sys, y) == VName(SReq(sys), y[1], y[2], y[3], y[4])
SNamed(sys, m) == [x \in {SName(sys, y) : y \in DOMAIN m} |-> m[CHOOSE y \in DOMAIN m : SName(sys, y) = x]]
SComps(sys) == {sys.comps[j] : j \in DOMAIN sys.comps}
AllVars(sys) ==
  UNION {UNION {{[n |-> VName(SReq(sys), c.id, d[1], x[1], x[2]),
                  v |-> [lb |-> SLb(sys, c, d[1], x[1], x[2]), ub |-> SUb(sys, c, d[1], x[1], x[2]), int |-> d[3]]]
                 : x \in IF d[2] THEN TS(sys) ELSE {<<-1, -1>>}} : d \in SVars(c)} : c \in SComps(sys)}
AllRows(sys) ==
  UNION {{[n |-> RName(c.id, r.n, r.t, r.s),
           v |-> LET e == LTrim(r.e) IN [lb |-> RSub(r.lo, e.c), ub |-> RSub(r.hi, e.c), m |-> SNamed(sys, e.m)]]
          : r \in SRows(sys, c)} : c \in SComps(sys)}
Fun(S) == [x \in {y.n : y \in S} |-> (CHOOSE y \in S : y.n = x).v]
ShippedProblem(sys) ==
  LET o == LTrim(LSum([j \in DOMAIN sys.comps |-> SCost(sys, sys.comps[j])]))
      vs == AllVars(sys)
  IN IF \E x \in vs : RLt(x.v.ub, x.v.lb) THEN Err("empty range")
     ELSE Ok([vars |-> Fun(vs), rows |-> Fun(AllRows(sys)), obj |-> [c |-> o.c, m |-> SNamed(sys, o.m)]])

\* rows are the same up to a factor
SameRow(a, b) ==
  /\ DOMAIN a.m = DOMAIN b.m
  /\ IF DOMAIN a.m = {} THEN a = b
     ELSE LET x == CHOOSE x \in DOMAIN a.m : TRUE
              f == RDiv(b.m[x], a.m[x])
          IN /\ \A y \in DOMAIN a.m : RMul(f, a.m[y]) = b.m[y]
             /\ IF RSgn(f) > 0 THEN RMul(f, a.lb) = b.lb /\ RMul(f, a.ub) = b.ub
                ELSE RMul(f, a.lb) = b.ub /\ RMul(f, a.ub) = b.lb
================================================================================

---------------------------------- MODULE PyPSA --------------------------------
(* A PyPSA network, the system it is converted to, and the problem of that system.*)
(*                                                                                *)
(* net = [name, T, items : <<[id, kind, buses, carrier, ext, nom, pars, series]>>,*)
(*        carriers : <<[id, co2]>>, gcs : <<[id, type, attr, sense, quota]>>,     *)
(*        limits : set of features of the network outside what is supported]      *)
(* kind is generator, load, bus, link, storage_unit or store; pars gives every    *)
(* attribute its fixed value, series gives those which vary with the snapshots.   *)
(* An infinite value stands for the largest number of the converter (1e20).       *)
EXTENDS Antares
PItems(net) == {net.items[j] : j \in DOMAIN net.items}
Suffix == [generator |-> "_generator", load |-> "_load", bus |-> "", link |-> "", storage_unit |-> "_storage", store |-> "_store"]
PId(x) == x.id \o Suffix[x.kind]
\* what the models need, besides the emissions of the carrier
PNeeds ==
  [generator |-> {"p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "marginal_cost", "capital_cost", "e_sum_min", "e_sum_max", "sign", "efficiency"},
   load |-> {"p_set", "q_set", "sign"},
   bus |-> {"v_nom", "x", "y", "v_mag_pu_set", "v_mag_pu_min", "v_mag_pu_max"},
   link |-> {"efficiency", "p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "marginal_cost", "capital_cost"},
   storage_unit |-> {"p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "sign", "efficiency_store", "efficiency_dispatch", "standing_loss",
                     "max_hours", "marginal_cost", "capital_cost", "marginal_cost_storage", "spill_cost", "inflow"},
   store |-> {"sign", "e_nom_min", "e_nom_max", "e_min_pu", "e_max_pu", "standing_loss", "marginal_cost", "capital_cost", "marginal_cost_storage"}]
Emits(x) == x.kind \in {"generator", "storage_unit", "store"}
HasCapacity(x) == x.kind \in {"generator", "link", "storage_unit", "store"}
\* a component without carrier, or whose carrier is not described, has no emissions
Co2(net, x) ==
  LET k == {j \in DOMAIN net.carriers : net.carriers[j].id = x.carrier}
  IN IF k = {} THEN RZero ELSE net.carriers[CHOOSE j \in k : TRUE].co2
\* a component which is not extendable has its own capacity, at no cost
PFixed(x, p) ==
  IF HasCapacity(x) /\ ~x.ext /\ p \in {"p_nom_min", "p_nom_max", "e_nom_min", "e_nom_max"} THEN x.nom
  ELSE IF HasCapacity(x) /\ ~x.ext /\ p = "capital_cost" THEN RZero
  ELSE x.pars[p]
PPars(net, x) ==
  {IF p \in DOMAIN x.series THEN TSeries(p, [h \in DOMAIN x.series[p] |-> <<x.series[p][h]>>]) ELSE Num(p, PFixed(x, p))
   : p \in PNeeds[x.kind]}
  \cup (IF Emits(x) THEN {Num("emission_factor", Co2(net, x))} ELSE {})
PGcs(net) == {net.gcs[j] : j \in DOMAIN net.gcs}
GcModel(g) == IF g.sense = "<=" THEN "global_constraint_co2_max" ELSE "global_constraint_co2_eq"
PComps(net) ==
  {[id |-> PId(x), kind |-> x.kind, model |-> "pypsa_models." \o x.kind, pars |-> PPars(net, x)] : x \in PItems(net)}
  \cup {[id |-> g.id, kind |-> GcModel(g), model |-> "pypsa_models." \o GcModel(g), pars |-> {Num("quota", g.quota)}] : g \in PGcs(net)}
Join(a, p, b, q) == [c1 |-> a, p1 |-> p, c2 |-> b, p2 |-> q]
PConns(net) ==
  UNION {IF x.kind = "bus" THEN {}
         ELSE IF x.kind = "link" THEN {Join(x.buses[1], "p_balance_port", PId(x), "p0_port"), Join(x.buses[2], "p_balance_port", PId(x), "p1_port")}
         ELSE {Join(x.buses[1], "p_balance_port", PId(x), "p_balance_port")} : x \in PItems(net)}
  \cup {Join(g.id, "emission_port", PId(x), "emission_port") : g \in PGcs(net), x \in {x \in PItems(net) : Emits(x) /\ x.carrier # ""}}
NPConns(net) == Cardinality(PConns(net))
\* only what the models can express is converted
Supported(net) ==
  net.limits = <<>> /\ \A g \in PGcs(net) : g.type = "primary_energy" /\ g.attr = "co2_emissions" /\ g.sense \in {"<=", "=="}

ShippedKind == [k \in {"generator", "bus", "storage_unit", "store", "global_constraint_co2_max", "global_constraint_co2_eq"} |-> k]
               @@ [load |-> "pload", link |-> "plink"]
PSystem(net, S) ==
  LET cs == SetToSeq(PComps(net)) IN
  [T |-> net.T, S |-> S, comps |-> [j \in DOMAIN cs |-> [id |-> cs[j].id, model |-> ShippedKind[cs[j].kind]]],
   conns |-> SetToSeq(PConns(net)),
   data |-> [x \in {cs[j].id : j \in DOMAIN cs} |->
               LET c == cs[CHOOSE j \in DOMAIN cs : cs[j].id = x] IN
               [p \in {q.id : q \in c.pars} |-> Spread(CHOOSE q \in c.pars : q.id = p, net.T, S)]]]
================================================================================

---------------------------------- MODULE Antares ------------------------------
(* An Antares study and the system it is converted to.                            *)
(*                                                                                *)
(* st = [areas : <<[id, ens, spill, load, wind, solar, ren, th, sts]>>,           *)
(*       links : <<[from, to, direct, indirect, cost]>>,                          *)
(*       bcs : <<[id, terms : <<[key, w]>>]>>, period]                            *)
(* load, wind, solar = [k |-> "absent" | "empty" | "data", m]; every series is a  *)
(* matrix hours x scenarios.  A converted parameter is [id, t, s, v] with v =     *)
(* [k |-> "num", v] or [k |-> "file", m]: the number, or the contents of the file.*)
EXTENDS Shipped
Num(id, v)      == [id |-> id, t |-> FALSE, s |-> FALSE, v |-> [k |-> "num", v |-> v, m |-> <<>>]]
Series(id, m)   == [id |-> id, t |-> TRUE, s |-> TRUE, v |-> [k |-> "file", v |-> RZero, m |-> m]]
TSeries(id, m)  == [id |-> id, t |-> TRUE, s |-> FALSE, v |-> [k |-> "file", v |-> RZero, m |-> m]]
FullName == [area |-> "antares-historic.area", renewable |-> "antares-historic.renewable", thermal |-> "antares-historic.thermal",
             sts |-> "antares-historic.short-term-storage", load |-> "antares-historic.load", wind |-> "antares-historic.wind",
             solar |-> "antares-historic.solar", link |-> "antares-historic.link", battery |-> "andromede-v1-models.battery"]
Component(kind, id, pars) == [kind |-> kind, id |-> id, model |-> FullName[kind], pars |-> pars]
To(c, p, a) == [c1 |-> c, p1 |-> p, c2 |-> a, p2 |-> "balance_port"]
Areas(st) == {st.areas[j] : j \in DOMAIN st.areas}
AreaIds(st) == {a.id : a \in Areas(st)}
AreaOf(st, x) == CHOOSE a \in Areas(st) : a.id = x
Elems(q) == {q[j] : j \in DOMAIN q}

\* --------------------------------------------------- thermal pre-processing
RCeil(r) == R(-((-r[1]) \div r[2]))
MapM(m, f(_)) == [h \in DOMAIN m |-> [s \in DOMAIN m[h] |-> f(m[h][s])]]
PMin(th) == [h \in DOMAIN th.series |-> [s \in DOMAIN th.series[h] |->
               RMin(RMul(RMul(th.mod[h], th.cap), th.count), th.series[h][s])]]
UnitsMin(th) == LET m == PMin(th) IN MapM(m, LAMBDA x : RCeil(RDiv(x, th.cap)))
UnitsMax(th) == MapM(th.series, LAMBDA x : RCeil(RDiv(x, th.cap)))
\* hour before h (from 1) in its period of hours, the first of a period following the last
Before(h, period, H) == IF h = 1 THEN 1 ELSE LET b == ((h - 2) % period) + ((h - 1) \div period) * period
                                              IN (IF b < H - 1 THEN b ELSE H - 1) + 1
Variation(th, period, forward) ==
  LET u == UnitsMax(th)  H == Len(u) IN
  [h \in 1..H |-> [s \in DOMAIN u[h] |->
     LET p == u[Before(h, period, H)][s]  x == u[h][s]
     IN RMax(RZero, IF forward THEN RSub(p, x) ELSE RSub(x, p))]]
Period(st) == IF st.period = 0 THEN 168 ELSE st.period
ThermalPars(st, th) ==
  {Series("p_min_cluster", PMin(th)), Series("nb_units_min", UnitsMin(th)), Series("nb_units_max", UnitsMax(th)),
   Series("nb_units_max_variation_forward", Variation(th, Period(st), TRUE)),
   Series("nb_units_max_variation_backward", Variation(th, Period(st), FALSE)),
   Num("unit_count", th.count), Num("p_min_unit", th.minp), Num("efficiency", th.eff), Num("p_max_unit", th.cap),
   Num("generation_cost", th.marg), Num("fixed_cost", th.fixed), Num("startup_cost", th.start),
   Num("d_min_up", th.up), Num("d_min_down", th.down), Series("p_max_cluster", th.series)}

\* ------------------------------------------------------- objects of batteries
ZB == "z_batteries"
BatteryThermals(st) ==
  UNION {{<<a, a \o "_batteries_inj">>, <<ZB, ZB \o "_batteries_" \o a \o "_1">>, <<ZB, ZB \o "_batteries_" \o a \o "_2">>} : a \in AreaIds(st)}
HasTh(st, a, x) == a \in AreaIds(st) /\ \E th \in Elems(AreaOf(st, a).th) : th.id = x
ThOf(st, a, x) == CHOOSE th \in Elems(AreaOf(st, a).th) : th.id = x
HasLink(st, a, b) == \E l \in Elems(st.links) : l.from = a /\ l.to = b
LinkOf(st, a, b) == CHOOSE l \in Elems(st.links) : l.from = a /\ l.to = b
Bcs(st, x) == {b \in Elems(st.bcs) : b.id = x}
HasTerm(st, x, key) == \E b \in Bcs(st, x) : \E q \in Elems(b.terms) : q.key = key
Weight(st, x, key) == (CHOOSE q \in Elems((CHOOSE b \in Bcs(st, x) : TRUE).terms) : q.key = key).w
HasBattery(st, a) ==
  /\ a \notin {ZB, "z_batteries_pcomp"}
  /\ HasTh(st, ZB, ZB \o "_batteries_" \o a \o "_1")
  /\ HasLink(st, a, ZB)
  /\ HasTh(st, a, a \o "_batteries_inj")
  /\ HasTerm(st, "batteries_" \o a, a \o "%" \o ZB)
  /\ HasTerm(st, "batteries_" \o a, a \o "." \o a \o "_batteries_inj")
Col(m) == [h \in DOMAIN m |-> <<m[h][1]>>]
ColDiv(m, d) == [h \in DOMAIN m |-> <<RDiv(m[h][1], d)>>]
RECURSIVE ColMax(_)
ColMax(m) == IF Len(m) = 1 THEN m[1][1] ELSE RMax(m[1][1], ColMax(Tail(m)))
Battery(st, a) ==
  LET tank == ThOf(st, ZB, ZB \o "_batteries_" \o a \o "_1")
      inj  == ThOf(st, a, a \o "_batteries_inj")
      l    == LinkOf(st, a, ZB)
      most == ColMax(l.direct)
  IN Component("battery", "battery_" \o a,
       {Num("reservoir_capacity", tank.cap), Num("injection_nominal_capacity", most), Num("withdrawal_nominal_capacity", inj.cap),
        Num("efficiency_injection", RNeg(Weight(st, "batteries_" \o a, a \o "%" \o ZB))),
        Num("efficiency_withdrawal", Weight(st, "batteries_" \o a, a \o "." \o a \o "_batteries_inj")),
        Num("lower_rule_curve", RZero), TSeries("upper_rule_curve", ColDiv(tank.series, tank.cap)),
        TSeries("p_max_injection_modulation", ColDiv(l.direct, most)),
        TSeries("p_max_withdrawal_modulation", ColDiv(inj.series, inj.cap)), TSeries("marginal_cost", l.cost)})

\* ------------------------------------------------------------------- the system
NonZero(m) == \E h \in DOMAIN m : \E s \in DOMAIN m[h] : m[h][s] # RZero
Present(x) == x.k = "data" /\ NonZero(x.m)
ANodes(st) == {Component("area", a.id, {Num("ens_cost", a.ens), Num("spillage_cost", a.spill)}) : a \in {a \in Areas(st) : a.id # ZB}}
KeptTh(st, a) == {th \in Elems(a.th) : <<a.id, th.id>> \notin BatteryThermals(st)}
KeptLinks(st) == {l \in Elems(st.links) : l.to # ZB \/ l.from = ZB}
LinkId(l) == l.from \o " / " \o l.to
AComps(st) ==
  UNION {{Component("renewable", x.id, {Num("unit_count", x.count), Num("p_max_unit", x.cap), Series("generation", x.series)}) : x \in Elems(a.ren)}
         \cup {Component("thermal", th.id, ThermalPars(st, th)) : th \in KeptTh(st, a)}
         \cup {Component("sts", x.id,
                 {Num("efficiency_injection", x.eff), Num("efficiency_withdrawal", ROne), Num("initial_level", x.init),
                  Num("reservoir_capacity", x.cap), Num("injection_nominal_capacity", x.inj), Num("withdrawal_nominal_capacity", x.wit),
                  Series("inflows", x.inflows), Series("lower_rule_curve", x.lower), Series("upper_rule_curve", x.upper),
                  Series("p_max_injection_modulation", x.pinj), Series("p_max_withdrawal_modulation", x.pwit)}) : x \in Elems(a.sts)}
         \cup (IF Present(a.load) THEN {Component("load", "load", {Series("load", a.load.m)})} ELSE {})
         \cup (IF Present(a.wind) THEN {Component("wind", a.id, {Series("wind", a.wind.m)})} ELSE {})
         \cup (IF Present(a.solar) THEN {Component("solar", a.id, {Series("solar", a.solar.m)})} ELSE {})
         : a \in Areas(st)}
  \cup {Component("link", LinkId(l), {Series("capacity_direct", l.direct), Series("capacity_indirect", l.indirect)}) : l \in KeptLinks(st)}
  \cup {Battery(st, a) : a \in {a \in AreaIds(st) : HasBattery(st, a)}}
AConns(st) ==
  UNION {{To(x.id, "balance_port", a.id) : x \in Elems(a.ren) \cup KeptTh(st, a)}
         \cup {To(x.id, "injection_port", a.id) : x \in Elems(a.sts)}
         \cup (IF Present(a.load) THEN {To("load", "balance_port", a.id)} ELSE {})
         \cup (IF Present(a.wind) THEN {To("wind", "balance_port", a.id)} ELSE {})
         \cup (IF Present(a.solar) THEN {To("solar", "balance_port", a.id)} ELSE {})
         : a \in Areas(st)}
  \cup UNION {{To(LinkId(l), "in_port", l.from), To(LinkId(l), "out_port", l.to)} : l \in KeptLinks(st)}
  \cup {To("battery_" \o a, "injection_port", a) : a \in {a \in AreaIds(st) : HasBattery(st, a)}}

\* how many of each
One1(b) == IF b THEN 1 ELSE 0
Total(q, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, q)
NComps(st) ==
  Total(st.areas, LAMBDA a : Len(a.ren) + Cardinality(KeptTh(st, a)) + Len(a.sts) + One1(Present(a.load)) + One1(Present(a.wind))
                             + One1(Present(a.solar)) + One1(HasBattery(st, a.id)))
  + Cardinality(KeptLinks(st))
NConns(st) == NComps(st) + Cardinality(KeptLinks(st))

\* ------------------------------------------------------- down to the problem
ShortName == [area |-> "area", renewable |-> "renewable", thermal |-> "thermal", sts |-> "short-term-storage", load |-> "load",
              link |-> "link", battery |-> "battery"]
Spread(p, T, S) == [h \in 1..T |-> [s \in 1..S |-> IF p.v.k = "num" THEN p.v.v ELSE IF p.s THEN p.v.m[h][s] ELSE p.v.m[h][1]]]
AntaresSystem(st, T, S) ==
  LET cs == SetToSeq(ANodes(st) \cup AComps(st)) IN
  [T |-> T, S |-> S, comps |-> [j \in DOMAIN cs |-> [id |-> cs[j].id, model |-> ShortName[cs[j].kind]]],
   conns |-> SetToSeq(AConns(st)),
   data |-> [x \in {cs[j].id : j \in DOMAIN cs} |->
               LET c == cs[CHOOSE j \in DOMAIN cs : cs[j].id = x] IN
               [p \in {q.id : q \in c.pars} |-> Spread(CHOOSE q \in c.pars : q.id = p, T, S)]]]
================================================================================

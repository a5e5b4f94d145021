"""S07: sizing of multi-pass return-to-primary plants."""
from vengine.harness import harness, StandIn, Fold, Contract, CONTRACTS
from . import RHO
from .s01_sizing import controls, usable_share, catalogue, building
from .s05_frames import mf

DAYS2 = 2 * 24 * 60


# ------------------------------------------------------------------ oracles
def hot_mean(v, on, on_t, slope, sup, sto):
    """Mean temperature of the water at supply temperature or hotter in a tank whose water at height `on` is at `on_t`
    and rises by `slope` per percent up to storage temperature; supply temperature when there is none."""
    lo = v.mx(0.0, on * 100.0 + (sup - on_t) / slope)
    hi = v.mn(100.0, on * 100.0 + (sto - on_t) / slope)
    t_lo = on_t + slope * (lo - on * 100.0)
    t_hi = on_t + slope * (hi - on * 100.0)
    some = v.lt(lo, 100.0, exact=True)
    hot = v.ite(some, 100.0 - lo, 1.0)
    return v.ite(some, ((hi - lo) * (t_lo + t_hi) / 2.0 + (100.0 - hi) * sto) / hot, sup)


def valve(v, load, flow, cold, sup, ret, hot):
    """Water taken from the tank and the temperature of what replaces it: the load's heat and the loop's, first against
    cold water in place of the load, then against return water."""
    all_cold = v.lt(flow * (sup - ret), load * (hot - sup), exact=True)
    draw = v.ite(all_cold, (load * (sup - cold) + flow * (sup - ret)) / (hot - cold),
                 (load + flow) * (sup - ret) / (hot - ret))
    some = v.lt(0.0, draw, exact=True)
    mixed = (load * cold + (draw - load) * ret) / v.ite(some, draw, 1.0)
    return draw, v.ite(v.or_(all_cold, v.not_(some)), cold, mixed)


# ------------------------------------------------------------------ contracts of the parts
def hot_mean_term(v, *a):
    return v.term("hot_mean", lambda *x: hot_mean(v, *x), *a)


def share_term(v, *a):
    return v.term("usable_share", lambda *x: usable_share(v, *x), *a)


def draw_term(v, *a):
    return v.term("valve_draw", lambda *x: valve(v, *x)[0], *a)


def inlet_term(v, *a):
    return v.term("valve_inlet", lambda *x: valve(v, *x)[1], *a)


def any_plant(v):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    sup, sto = v.real("sup", 90, 140), v.real("sto", 100, 200)
    v.assume(v.le(sup + 1.0, sto, exact=True))
    return v.call(DHWSystem, [], None, sup, sto)


def usable(v, s, on, on_t, slope):
    """Some usable water at the on-trigger."""
    return v.and_(v.lt(0.0, slope, exact=True), v.le(0.0, on, exact=True), v.le(on_t, s.storage_temp_f, exact=True),
                  v.lt(s.supply_temp_f, s.storage_temp_f, exact=True),
                  v.lt(on * 100.0 + (s.supply_temp_f - on_t) / slope, 99.0, exact=True), v.lt(on, 0.9, exact=True))


def sensor(v):
    return v.real("on", 0, 0.85), v.real("on_t", 90, 180), v.real("slope", 0, lo_open=True, sample=(0.3, 4))


Contract("DHWSystem._calc_avg_hot_temp_at_on_trigger",
         requires=lambda v, s, on, on_t, slope: usable(v, s, on, on_t, slope),
         ensures=lambda v, old, r, s, on, on_t, slope: [
             ("mean of the water at supply temperature or hotter",
              v.eq(r, hot_mean(v, on, on_t, slope, s.supply_temp_f, s.storage_temp_f))),
             ("hotter than supply", v.lt(s.supply_temp_f, r)),
             ("at most storage temperature", v.le(r, s.storage_temp_f))],
         value=lambda v, s, on, on_t, slope: hot_mean_term(v, on, on_t, slope, s.supply_temp_f, s.storage_temp_f),
         gives=lambda v, old, r, s, on, on_t, slope: [
             ("hotter than supply", v.lt(s.supply_temp_f, r)), ("at most storage temperature", v.le(r, s.storage_temp_f))],
         setup=lambda v: (lambda s: (s._calc_avg_hot_temp_at_on_trigger.__func__, (s,) + sensor(v)))(any_plant(v)))

Contract("DHWSystem._calc_supply_temp_gal_from_100gal_tank",
         requires=lambda v, s, on, on_t, slope, inlet: v.and_(usable(v, s, on, on_t, slope),
                                                              v.lt(inlet, s.supply_temp_f, exact=True)),
         ensures=lambda v, old, r, s, on, on_t, slope, inlet: [
             ("usable share of a tank", v.eq(r, 100.0 * usable_share(v, on, on_t, slope, s.supply_temp_f, s.storage_temp_f, inlet))),
             ("some", v.lt(0.0, r))],
         value=lambda v, s, on, on_t, slope, inlet: 100.0 * share_term(v, on, on_t, slope, s.supply_temp_f,
                                                                       s.storage_temp_f, inlet),
         gives=lambda v, old, r, s, on, on_t, slope, inlet: [("some", v.lt(0.0, r))],
         setup=lambda v: (lambda s: (s._calc_supply_temp_gal_from_100gal_tank.__func__,
                                     (s,) + sensor(v) + (v.real("inlet", 32, 80),)))(any_plant(v)))


def valve_inputs(v):
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    return mixing_valve_behavior, (v.real("load", 0, sample=(0, 30)), v.real("flow", 0, sample=(0, 30)), v.real("cold", 32, 80),
                                   v.real("sup", 90, 140), v.real("ret", 81, 139), v.real("hot", 90, 200))


Contract("mixing_valve_behavior",
         requires=lambda v, load, flow, cold, sup, ret, hot: v.and_(
             v.le(0.0, load, exact=True), v.le(0.0, flow, exact=True), v.lt(cold, ret, exact=True), v.lt(ret, sup, exact=True),
             v.lt(sup, hot, exact=True)),
         ensures=lambda v, old, r, *a: [
             ("water taken", v.eq(r["storage_draw_gal"], valve(v, *a)[0])),
             ("temperature of what replaces it", v.implies(v.lt(1e-9, r["storage_draw_gal"], exact=True),
                                                           v.eq(r["inlet_temp_f"], valve(v, *a)[1]))),
             ("never negative", v.le(0.0, r["storage_draw_gal"]))],
         value=lambda v, *a: {"storage_draw_gal": draw_term(v, *a), "inlet_temp_f": inlet_term(v, *a)},
         gives=lambda v, old, r, *a: [("never negative", v.le(0.0, r["storage_draw_gal"]))],
         setup=valve_inputs)

PARTS = ["DHWSystem._calc_avg_hot_temp_at_on_trigger", "DHWSystem._calc_supply_temp_gal_from_100gal_tank",
         "mixing_valve_behavior"]


@harness("S07", timeout_ms=60000)
def hot_water_mean(v):
    """Mean temperature of the hot water left at the on-trigger."""
    CONTRACTS[PARTS[0]].body(v)


@harness("S07", timeout_ms=60000)
def usable_part(v):
    """Usable part of the tank at the on-trigger."""
    CONTRACTS[PARTS[1]].body(v)


@harness("S07", timeout_ms=60000)
def valve_draw(v):
    """Draw and replacement water of the mixing valve."""
    CONTRACTS[PARTS[2]].body(v)


def batch(v, demand, cap, flow, cold, sup, sto, ret, hot):
    """One minute of the largest-batch account: water drawn in joins the batch, the heaters warm it, and at storage
    temperature it is done."""
    def step(g, t):
        a = (demand(t), flow, cold, sup, ret, hot)
        draw, t_in = draw_term(v, *a), inlet_term(v, *a)
        joins = v.lt(0.0, draw, exact=True)
        vol = g["vol"] + v.ite(joins, draw, 0.0)
        some = v.lt(0.0, vol, exact=True)
        one = v.ite(some, vol, 1.0)
        temp = v.ite(joins, v.ite(v.lt(0.0, g["vol"], exact=True), (g["vol"] * g["temp"] + draw * t_in) / one, t_in),
                     g["temp"])
        temp = temp + v.ite(some, cap * 1000.0 / 60.0 / (one * RHO), 0.0)
        done = v.and_(some, v.le(sto, temp, exact=True))
        left = v.ite(done, 0.0, vol)
        return {"vol": left, "temp": v.ite(done, cold, temp), "most": v.mx(g["most"], left)}
    return step


# ------------------------------------------------------------------ storage
class Demand(StandIn):
    """A building known by its use per minute only."""

    def __init__(self, v, daily, inlet):
        self.v, self.daily_dhw_use_supplyT_gal, self.inlet = v, daily, inlet

    def is_annual_load_shape(self):
        return False

    def get_design_inlet_water_temp_f(self):
        return self.inlet

    def get_dhw_load_supplyT_gal(self, timestep_interval, interval_min=1):
        use = self.v.term("use_of_minute", None, timestep_interval)
        self.v.lemma(use >= 0)
        return use


def account(v, L, g):
    return [("batch", v.eq(L["slug_vol_gal"], g["vol"])),
            ("largest batch so far", v.eq(L["max_slug_vol_gal"], g["most"])),
            ("temperature of the batch", v.implies(v.lt(0.0, g["vol"], exact=True), v.eq(L["slug_temp_f"], g["temp"]))),
            ("a volume", v.and_(v.le(0.0, g["vol"], exact=True), v.le(0.0, g["most"], exact=True)))]


BATCHES = {"MultiPassRTPSystem._calc_running_volume_supplyT_gal":
           Fold("batches", ["slug_vol_gal", "slug_temp_f", "max_slug_vol_gal"], account)}


def loop_inputs(v):
    inlet, sup, sto = v.real("inlet", 32, 80), v.real("sup", 100, 140), v.real("sto", 100, 180)
    ret, flow = v.real("ret", 81, 139), v.real("flow", 0, sample=(0, 10))
    v.assume(v.and_(v.le(sup + 1.0, sto, exact=True), v.lt(ret, sup, exact=True)))
    return inlet, sup, sto, ret, flow


def two_controls(v, sup, sto, names):
    """-> control map, [(sensor, trigger)]"""
    m, cs = {}, []
    for k, n in enumerate(names):
        on, on_t = v.real(f"on{k}", 0, 0.8), v.real(f"on_t{k}", 95, 150)
        v.assume(v.le(on_t, sto, exact=True))
        m[n] = controls(v, on, on_t, on / 2.0, sto, sto)
        cs.append((on, on_t))
    return m, cs


def shares(v, m, cs, slope, sup, sto, inlet):
    return [share_term(v, on, on_t, slope, sup, sto, inlet) for on, on_t in cs]


@harness("S07", samples=60, timeout_ms=60000, loops=BATCHES, uses=PARTS, wall=250)
def largest_batch(v):
    """Storage is the largest batch of two days over the usable share of the tank, for every use of every minute."""
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    inlet, sup, sto, ret, flow = loop_inputs(v)
    names = v.choice("controls", [("normal",), ("normal", "late"), ("early", "late")])
    slope = v.real("slope", 0.3, 3)
    run, df = v.real("run", 6, 24), v.real("defrost", 0.5, 1)
    m, cs = two_controls(v, sup, sto, names)
    if v.symbolic:
        b = Demand(v, v.real("daily", 0, lo_open=True), inlet)
        demand = b.get_dhw_load_supplyT_gal
    else:
        b = catalogue(v, inlet)
        shape = [float(x) for x in b.peak_load_shape]

        def demand(t):
            return b.daily_dhw_use_supplyT_gal * shape[t // 60 % 24] / 60.0
    daily = b.daily_dhw_use_supplyT_gal
    for on, on_t in cs:
        v.assume(v.lt(on * 100.0 + (sup - on_t) / slope, 99.0, exact=True))     # some usable water at the on-trigger
    hot = hot_mean_term(v, cs[0][0], cs[0][1], slope, sup, sto)
    for on, on_t in cs[1:]:
        hot = v.mn(hot, hot_mean_term(v, on, on_t, slope, sup, sto))
    cap = (daily * RHO * (sup - inlet) / 1000.0 + 24.0 * flow * 60.0 * RHO * (sup - ret) / 1000.0) / run / df
    most = v.fold("batches", DAYS2, {"vol": 0.0, "temp": inlet, "most": 0.0},
                  batch(v, demand, cap, flow, inlet, sup, sto, ret, hot))
    s = v.call(MultiPassRTPSystem, [], None, sup, sto, ret, flow, max_daily_run_hr=run, defrost_factor=df)
    v.call(s.size, b, control_map=m, strat_slope=slope)
    share = shares(v, m, cs, slope, sup, sto, inlet)
    least = share[0]
    if names[0] != "normal":
        least = v.mn(*share)
    v.check("capacity covers the day and the loop", v.eq(v.call(s.get_minimum_capacity_kbtuh), cap))
    v.check("storage is the largest batch over the usable share",
            v.eq(v.call(s.get_minimum_storage_storageT_gal) * least, most["most"], tol=1e-6))
    v.check("a volume", v.le(0.0, most["most"]))


# ------------------------------------------------------------------ the plant that is built
def trial_plant(show, seen):
    """The plant with its trial days in stand-in form: what a step shows is a function of the minute and of the capacity
    of the heaters in place."""
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem

    class Trial(MultiPassRTPSystem):
        def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
            cap = sum([w.get_capacity_kbtuh(30.0, self.storage_temp_f) for w in self.water_heaters])
            if seen is not None:
                seen.append((timestep_interval, cap))
            heat, left, top = show(timestep_interval, cap)
            return {"demand_supplyT_gal": 1.0, "usable_volume_supplyT_gal": left, "heater_output_kbtuh": heat,
                    "heater_power_in_kw": None, "oat_f": 30.0, "inlet_water_temp_f": 50.0,
                    "tank_temps_f": [0.0, 0.0, 0.0, 0.0, 0.0, top], "mode": "normal", "delivery_temp_f": top}
    return Trial


def trial(v, show, cap, sup):
    """One minute of trial days: when the heaters last started, and the coldest top of a tank without usable water with
    the minutes of heating that led to it."""
    def step(g, t):
        heat, left, top = show(t, cap)
        runs = v.lt(0.0, heat, exact=True)
        starts = v.and_(runs, v.lt(g["on"], 0.5, exact=True))
        start = v.ite(starts, t, g["start"])
        worse = v.and_(v.le(left, 0.0, exact=True), v.lt(top, g["coldest"], exact=True))
        return {"on": v.ite(runs, 1.0, 0.0), "start": start, "lack": v.ite(worse, t - start, g["lack"]),
                "coldest": v.ite(worse, top, g["coldest"])}
    return step


def flag(v, x):
    return (1.0 if x else 0.0) if isinstance(x, bool) else v.ite(x != 0, 1.0, 0.0)


def trial_account(v, L, g):
    return [("heaters on", v.eq(flag(v, L["heater_on"]), g["on"])), ("last start", v.eq(L["start_heat_min"], g["start"])),
            ("minutes of heating", v.eq(L["deficit_minutes"], g["lack"])),
            ("coldest top", v.eq(L["min_tank_outlet_f"], g["coldest"])),
            ("a flag", v.or_(v.eq(g["on"], 0.0), v.eq(g["on"], 1.0)))]


BUILT = {"MultiPassRTPSystem.from_size": Fold("trial", ["deficit_minutes", "min_tank_outlet_f", "heater_on", "start_heat_min"],
                                              trial_account, which=2)}

# proved by largest_batch, which says what the volume is
Contract("MultiPassRTPSystem._calc_running_volume_supplyT_gal", requires=lambda v, s, b, cap: True,
         ensures=lambda v, old, r, s, b, cap: [("a volume", v.le(0.0, r))])


class Look:
    """Readings off a plant whose parts depend on the path taken."""

    def heat(self, s):
        return sum([w.get_capacity_kbtuh(30.0, s.storage_temp_f) for w in s.water_heaters])

    def follows(self, s, sched, m):
        return len(s.water_heaters) == 1 and s.water_heaters[0].control_schedule == sched and s.water_heaters[0].control_map is m


def built(v, trials):
    """Inputs, plant built for them, its required capacity and the share of its tank."""
    inlet, sup, sto, ret, flow = loop_inputs(v)
    slope = v.real("slope", 0.3, 3)
    run, df = v.real("run", 6, 24), v.real("defrost", 0.5, 1)
    pct = v.real("pct", 0.7, 1)
    names = v.choice("controls", [("normal",), ("early", "normal"), ("early", "late")])
    m, cs = two_controls(v, sup, sto, names)
    for on, on_t in cs:
        v.assume(v.and_(v.lt(on * 100.0 + (sup - on_t) / slope, 99.0, exact=True), v.le((1.0 - pct) * 2.0 + 1e-6, on, exact=True)))
    return inlet, sup, sto, ret, flow, slope, run, df, pct, names, m, cs


@harness("S07", samples=30, timeout_ms=60000, max_paths=60000, loops=BUILT, uses=PARTS[:2] + ["MultiPassRTPSystem._calc_running_volume_supplyT_gal"], wall=250)
def capacity_of_trials(v):
    """The plant built: sized storage and capacity, the capacity raised while trial days leave the tank too cold."""
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    inlet, sup, sto, ret, flow, slope, run, df, pct, names, m, cs = built(v, None)
    seen = None if v.symbolic else []
    if v.symbolic:
        b = Demand(v, v.real("daily", 0, lo_open=True), inlet)
        daily = b.daily_dhw_use_supplyT_gal
        iters, days = v.choice("iterations", [0, 1]), 3

        def show(t, cap):
            return [v.term("trial_" + k, None, t, cap) for k in ("heat", "left", "top")]
    else:
        b = catalogue(v, inlet)
        daily = b.daily_dhw_use_supplyT_gal
        iters, days = v.int_("n", 0, 3), v.int_("days", 1, 2)
        per, dur, need = v.int_("per", 20, 900), v.int_("dur", 5, 500), v.real("need", 0.9, 1.6)
        late = v.int_("late", 0, 2000)
    cap0 = (daily * RHO * (sup - inlet) / 1000.0 + 24.0 * flow * 60.0 * RHO * (sup - ret) / 1000.0) / run / df
    if not v.symbolic:
        def show(t, cap):
            ample = float(cap) / cap0
            low = need - ample - (0.1 if t < late else 0.0)
            return (1.0 if t % per < dur else 0.0), -low * (t % 97), sup - low * ((t * 37) % 101) / 5.0 + 1.0
    T = trial_plant(show, seen)
    sched = [names[0]] * 12 + [names[-1]] * 12
    start = {"on": 0.0, "start": 0.0, "lack": 0.0, "coldest": sup}
    if v.symbolic:
        g1 = v.fold("trial", 1440 * days, start, trial(v, show, cap0, sup))
    s = v.call(T.from_size, b, sup, sto, ret, flow, max_daily_run_hr=run, defrost_factor=df, control_schedule=sched,
               control_map=m, strat_slope=slope, percent_useable=pct, capacity_boost_trial_days=days,
               capacity_boost_iterations=iters)
    tank = s.storage_tank
    vol = v.call(s.get_minimum_storage_storageT_gal)
    cap, want = cap0, []
    for k in range(iters):
        want += [] if v.symbolic else [(t, cap) for t in range(1440 * days)]
        g = g1 if v.symbolic else v.fold("trial", 1440 * days, start, trial(v, show, cap, sup))
        cold = v.lt(0.0, g["lack"], exact=True)
        if not v.symbolic and not cold:
            break
        miss = vol * pct * RHO * (sup - g["coldest"]) / 1000.0
        cap = v.ite(v.and_(cold, v.lt(0.0, miss, exact=True)), cap + miss * 60.0 / v.ite(cold, g["lack"], 1.0), cap)
    v.check("capacity is raised by the heat missing over the time of heating", v.eq(v.call(s.get_minimum_capacity_kbtuh), cap))
    v.check("the heaters have that capacity", v.eq(v.call(Look().heat, s), cap))
    v.check("the heaters follow the controls", v.call(Look().follows, s, sched, m))
    v.check("the tank has the sized volume", v.eq(tank.total_volume_gal, vol))
    v.check("the plant keeps its temperatures", v.and_(v.eq(s.supply_temp_f, sup), v.eq(s.storage_temp_f, sto),
                                                       v.eq(s.return_temp_f, ret), v.eq(s.return_flow_gpm, flow)))
    if not v.symbolic:
        v.check("every trial runs its days from the start with the heaters in place", len(seen) == len(want) and all(
            a[0] == w[0] and v.eq(a[1], w[1]) for a, w in zip(seen, want)))
        twin = SlugOverlayTank(float(vol), inlet, sto, sup, pct, slope)
        if iters:
            on = cs[names.index("normal") if "normal" in names else 0][0]
            twin.initialize(sto, inlet, 1.0 - on)
        v.check("the tank stands as charged to the on-sensor", v.and_(
            v.eq(tank.get_usable_volume_supplyT_gal(sup), twin.get_usable_volume_supplyT_gal(sup), tol=1e-6),
            *[v.eq(tank.get_temperature_at_fraction(f), twin.get_temperature_at_fraction(f), tol=1e-6)
              for f in (0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0)]))


def curve_points_multi_pass(v):
    """Bounded: every point of the curve is the plant built for its run time alone, listed with the hours its capacity
    needs for the day and the loop."""
    if v.symbolic:
        return
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    annual = v.choice("annual", [False, True])
    kind = v.choice("building", ["multi_family", "even", "even", "multi_family"])
    if kind == "even":          # a day so even that few run times are shorter than what follows its peak hour
        annual, top = False, v.choice("top", [0.0425, 0.075, 0.09])
        b = building(v, 60.0 * v.real("mag", 5, 400, sample=(20, 300)), [top] * 10 + [(1.0 - 10.0 * top) / 14.0] * 14,
                     v.real("inlet", 35, 65))
    else:
        b = mf(v, annual, v.real("inlet", 35, 65))
    inlet = b.get_design_inlet_water_temp_f()
    sup, sto, ret, flow = 120.0, v.choice("sto", [135.0, 145.0]), v.real("ret", 100, 118), v.real("flow", 0.5, 6)
    run, df, step = v.choice("run", [14.0, 16.0, 12.5]), v.choice("df", [1.0, 0.85]), v.choice("step", [0.5, 1.0, 2.0])
    slope, pct = v.choice("slope", [0.8, 1.6]), v.choice("pct", [1.0, 0.95])
    m = {"normal": controls(v, 0.4, 118.0, 0.1, sto, sto)}
    need, lost = v.choice("need", [1.0, 1.3, 4.0]), v.real("lost", 1, 10)
    lim = b.daily_dhw_use_supplyT_gal * RHO * (sup - inlet) / 1000.0 / 14.0 * need

    def show(plant, building, timestep_interval, interval_min=1, mode="normal"):
        low = lim - float(plant.water_heaters[0].get_capacity_kbtuh(30.0, sto))
        late = timestep_interval > 1500
        return {"usable_volume_supplyT_gal": -low, "heater_output_kbtuh": 1.0, "tank_temps_f": [
            0.0, 0.0, 0.0, 0.0, 0.0, sup - (lost * low / lim if low > 0 and (late or timestep_interval == 300) else 0.0) * (1 + late)]}
    kw = dict(supply_temp_f=sup, storage_temp_f=sto, return_temp_f=ret, return_flow_gpm=flow, defrost_factor=df,
              control_schedule=["normal"] * 24, control_map=m, strat_slope=slope, percent_useable=pct)
    real = MultiPassRTPSystem.__dict__["simulate_step"]
    MultiPassRTPSystem.simulate_step = show
    try:
        s = v.call(MultiPassRTPSystem.from_size, b, max_daily_run_hr=run, capacity_boost_trial_days=1, **kw)
        c = v.call(s.get_sizing_curve, b, step=step)
        if annual:
            b.set_to_daily_load_shape()
        day = b.daily_dhw_use_supplyT_gal * RHO * (sup - inlet) / 1000.0 + 24.0 * flow * 60.0 * RHO * (sup - ret) / 1000.0
        least = 1.0 / max(float(x) for x in b.peak_load_shape) * 1.001
        pts, h, k = [], run, 0
        while h > least and (k == 0 or h >= 9.0):
            pt = s if k == 0 else v.call(MultiPassRTPSystem.from_size, b, max_daily_run_hr=h, capacity_boost_trial_days=2,
                                         capacity_boost_iterations=1, **kw)
            cap, vol = float(pt.get_minimum_capacity_kbtuh()), float(pt.get_minimum_storage_storageT_gal())
            if vol == 0.0:
                break
            hrs = day / (cap * df)
            v.assume(abs((hrs * 10.0) % 1.0 - 0.5) > 1e-6)
            if not pts or round(hrs, 1) < min(p[0] for p in pts):
                pts.append((round(hrs, 1), cap, vol))
            k += 1
            h = run - k * step
    finally:
        MultiPassRTPSystem.simulate_step = real
    got = list(zip(c["heat_hours"], c["capacity_kbtuh"], c["storage_storageT_gal"]))
    v.check("one point for every run time that shortens the day", len(got) == len(pts))
    v.check("each point is a plant built for its run time", all(v.eq(g[1], p[1]) and v.eq(g[2], p[2]) for g, p in zip(got, pts)))
    v.check("listed with the hours its capacity needs", all(v.eq(g[0], p[0]) for g, p in zip(got, pts)))
    v.check("the recommended point is the plant itself", c["recommended_index"] == 0)


for _p in ("S06", "S07"):
    harness(_p, samples=24)(curve_points_multi_pass)


@harness("S07")
def refused(v):
    """Sensors in water that cannot be used, and load shifting, are refused before anything is sized."""
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    what = v.choice("what", ["on", "off", "shed"])
    pct = v.real("pct", 0.5, 0.99)
    low = v.real("low", 0, 0.5)
    v.assume(v.lt(low + 1e-6, 1.0 - pct, exact=True))
    m = {"late": controls(v, low if what == "on" else 0.9, 120.0, low if what == "off" else 0.9, 140.0, 140.0),
         "normal": controls(v, 0.9, 120.0, 0.9, 140.0, 140.0)}
    if what == "shed":
        m = {"normal": controls(v, 0.9, 120.0, 0.9, 140.0, 140.0), "shed": controls(v, 0.95, 120.0, 0.92, 140.0, 140.0)}
    b = catalogue(v, 50.0, "multi_family")
    o = v.outcome(MultiPassRTPSystem.from_size, b, 120.0, 140.0, 110.0, 3.0, control_schedule=["normal"] * 24, control_map=m,
                  percent_useable=pct)
    v.check("refused", o.raised is ValueError)

"""Answers do not depend on what was asked before.

The contracts of the other specifications start from a state given by its public parts.  The harnesses here look at longer
histories: an object is first used for something else (other intervals, other weather, another building, another tariff
step), then asked, and the answer has to be that of an object that was never used.  The look-ups are also proved for two
arbitrary queries in a row; the larger histories are bounded (sampled on the running code)."""
from vengine.harness import harness
from .b01_load import STEPS
from .s01_sizing import SCHEDULES
from .s05_frames import make, ctrl_map


def alike(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def asked(v, label, used, fresh):
    """Two outcomes of the same question."""
    v.check(label, used.raised is fresh.raised and (used.raised is not None or alike(used.value, fresh.value)))


class Answer:
    def __init__(self, raised, value):
        self.raised, self.value = raised, value


def apart(fn):
    """The outcomes fn() lists, computed in a process of their own: nothing it leaves behind is seen here."""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps([(q, o.raised, o.value) for q, o in fn()])
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return [(q, Answer(a, x)) for q, a, x in pickle.loads(data)]


# ------------------------------------------------------------------ B01, B03, U01: any two queries in a row
def interval(v, tag, n):
    """Any interval of n hours that repeat: its index, its length and the hour it lies in."""
    m = v.choice(tag + "m", [15, 60] if v.symbolic else STEPS)
    k, cyc = v.int_(tag + "hour", 0, n - 1), 0 if v.symbolic and tag == "a" else v.int_(tag + "cycle", 0, sample=(0, 1))
    if not v.symbolic and v.choice(tag + "early", [True, False]):
        k, cyc = k % 3, 0                                   # the same few indices come up in both queries
    part = v.int_(tag + "part", 0, 60 // m - 1)
    return (cyc * n + k) * (60 // m) + part, m, k


@harness("B01", max_paths=20000)
def load_after_load(v):
    """The demand of an interval does not depend on the interval, length or kind of day asked for before."""
    from ecoengine.objects.building.Building import Building
    n = v.choice("n", [24, 8760])
    peak, avg = v.series("peak", n, 0, 1), v.series("avg", n, 0, 1)
    daily = v.real("daily", 0, sample=(10, 20000))
    b = v.call(Building, None, daily, peak, avg)
    s1, m1, _ = interval(v, "a", n)
    v.call(b.get_dhw_load_supplyT_gal, s1, m1, use_avg=v.choice("a_avg", [False, True]))
    s, m, k = interval(v, "b", n)
    w = v.choice("b_avg", [False, True])
    v.check("share of the hour", v.eq(v.call(b.get_dhw_load_supplyT_gal, s, m, use_avg=w), daily * (avg if w else peak)[k] * m / 60.0))


@harness("B01", samples=40)
def load_after_switch(v):
    """Bounded: demand of an interval after the building was asked, switched to its annual shape, asked, switched back."""
    from ecoengine.objects.building.Building import Building
    if v.symbolic:
        return
    raw = [v.real("s%d" % i, 0.1, 1) for i in range(24)]
    own = [x / sum(raw) for x in raw]
    kw = v.choice("own", [{}, {"custom_peak_load_shape": own}, {"custom_peak_load_shape": own, "custom_avg_load_shape": own[::-1]}])
    mag = v.real("mag", 10, 500)
    b = Building.from_building_type("multi_family", mag, None, **kw)
    n = v.choice("switches", [0, 1, 2, 3])
    s, m, _ = interval(v, "a", 24)
    w = v.choice("avg", [False, True])
    for i in range(n + 1):
        if i:
            (b.set_to_annual_load_shape if i % 2 else b.set_to_daily_load_shape)()
        sh = b.avg_load_shape if w else b.peak_load_shape
        v.check("share of the hour in force", v.eq(v.call(b.get_dhw_load_supplyT_gal, s, m, use_avg=w),
                                                   b.daily_dhw_use_supplyT_gal * float(sh[s * m // 60 % len(sh)]) * m / 60.0))


@harness("B03", max_paths=20000)
def weather_after_weather(v):
    """Air and inlet temperature do not depend on the interval asked for before."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    oat = v.series("oat", 8760, -60, 130)
    inl = [40.0 + i for i in range(12)]
    cz = v.call(ClimateZone, 1, oat, inl)
    s1, m1, _ = interval(v, "a", 8760)
    v.call(cz.get_oat_f, s1, m1)
    s, m, k = interval(v, "b", 8760)
    v.check("air temperature of the hour", v.eq(v.call(cz.get_oat_f, s, m), oat[k]))
    if not v.symbolic:
        v.call(cz.get_inlet_water_temp_f, s1, m1)
        fresh = v.call(ClimateZone, 1, oat, inl)
        v.check("inlet temperature", v.eq(v.call(cz.get_inlet_water_temp_f, s, m), v.call(fresh.get_inlet_water_temp_f, s, m)))
        v.check("design conditions", v.and_(v.eq(v.call(cz.get_design_oat_f), min(oat[i] for i in range(8760))),
                                            v.eq(v.call(cz.get_design_inlet_water_temp_f), 40.0)))


@harness("U01", max_paths=20000)
def rate_after_rate(v):
    """Rate and demand period of an interval do not depend on the interval asked for before."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    hourly = v.choice("hourly", [False, True])
    p = v.series("p", 8760, 0, 23)
    e = v.series("e", 8760, 0, 1)
    if not v.symbolic:
        p = [int(p[i]) for i in range(8760)]
    rates = {k: 0.05 * (k + 1) for k in range(24)}
    uc = v.call(UtilityCostTracker, p, {k: 1.0 + k for k in range(24)}, rates, {k: k % 2 == 1 for k in range(24)},
                {k: False for k in range(24)}, 10.0, *([e] if hourly else []))
    s1, m1, _ = interval(v, "a", 8760)
    if v.symbolic:
        v.assume(v.lt(s1 * m1, 8760 * 60))
    else:
        s1 = s1 % (8760 * 60 // m1)
    s, m, k = interval(v, "b", 8760)
    v.assume(v.lt(s * m, 8760 * 60))
    if hourly or not v.symbolic:
        v.call(uc.get_energy_charge_at_step, s1, m1)
        v.check("rate of the hour", v.eq(v.call(uc.get_energy_charge_at_step, s, m), e[k] if hourly else rates[p[k]]))
    v.call(uc.get_demand_period_at_step, s1, m1)
    v.check("period of the hour", v.eq(v.call(uc.get_demand_period_at_step, s, m), p[k]))
    if not v.symbolic:
        a, b2 = v.choice("pa", list(range(24))), v.choice("pb", list(range(24)))
        v.call(uc.get_demand_charge_for_period, a, v.real("kwa", 0, 50))
        kw = v.real("kwb", 0, 50)
        v.check("demand charge", v.eq(v.call(uc.get_demand_charge_for_period, b2, kw), (1.0 + b2) * kw))


# ------------------------------------------------------------------ H01, H02, R05
@harness("H02", samples=60)
def output_after_output(v):
    """Bounded: output and power of catalogue and nominal heaters do not depend on the conditions asked for before, on other
    heaters of the same model or on having been switched."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    if v.symbolic:
        return
    import json
    import os
    import ecoengine
    cat = os.path.join(os.path.dirname(ecoengine.__file__), "data")
    path = [os.path.join(d, "maps.json") for d, _, fs in os.walk(cat) if "maps.json" in fs][0]
    with open(path) as f:
        name = v.choice("model", sorted(json.load(f)) + [None])
    n, nom = v.choice("n", [1, 3]), v.choice("nom", [None, 80.0])

    def heater(n=n, nom=nom):
        if name is None:
            return WaterHeater.from_nominal_capacity(75.0 * n, None, None)
        return WaterHeater.from_model_name(name, None, None, num_units=n, nominal_capacity_kbtuh=nom)
    o = v.outcome(heater)
    if o.raised is not None:
        return
    used, other = o.value, heater(5, 30.0)
    last = ("get_capacity_kbtuh", "get_power_in_kw", "get_output_kbtuh")

    def cond(tag):
        return (v.choice(tag + "oat", [-10.0, 5.0, 17.0, 35.0, 60.0, 95.0, 120.0]), v.choice(tag + "out", [120.0, 140.0, 150.0]),
                v.choice(tag + "in", [None, 45.0, 60.0, 110.0]))
    c = cond("c")

    def new():
        w = heater()
        w.turn_on()
        return [(q, v.outcome(getattr(w, q), *c)) for q in last]
    want = apart(new)
    for i in range(3):
        w = (used, used, other)[i]
        for q in ("get_capacity_kbtuh", "get_power_in_kw", "get_output_kbtuh"):
            v.outcome(getattr(w, q), *cond("b%d%s" % (i, q)))
        if v.choice("sw%d" % i, [False, True]):
            w.turn_on()
    near = list(c)
    i = v.choice("changed", [0, 1, 2])
    near[i] = v.choice("near", [[-10.0, 40.0, 95.0], [120.0, 135.0, 150.0], [45.0, 80.0, 110.0]][i])
    for q in last:                                          # conditions that differ from those asked in one respect
        v.outcome(getattr(v.choice("near" + q, [used, other]), q), *near)
    used.turn_on()
    for q, x in want:
        asked(v, q, v.outcome(getattr(used, q), *c), x)


@harness("H01", samples=80)
def controls_after_controls(v):
    """Bounded: the controls in force do not depend on the hour asked for before, and follow a replaced schedule."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.heating.Controls import Controls
    if v.symbolic:
        return
    cs = {k: Controls(0.4, 120.0, 0.1, 150.0, out) for k, out in (("normal", 150.0), ("shed", 140.0), ("loadUp", 155.0))}
    sched = [v.choice("h%d" % h, list(cs)) for h in range(24)]
    w = WaterHeater.from_nominal_capacity(50.0, sched, cs)
    for i in range(3):
        h = v.int_("ask%d" % i, 0, 23)
        v.check("controls of the hour", v.call(w.get_controls_for_hour, h) is cs[sched[h]])
        v.check("outlet of the hour", v.eq(v.call(w.get_outlet_temp_f, h), cs[sched[h]].outlet_temp_f))
    sched = sched[6:] + sched[:6]
    w.control_schedule = sched
    h = v.int_("then", 0, 23)
    v.check("controls of the new schedule", v.call(w.get_controls_for_hour, h) is cs[sched[h]])


@harness("R05", max_paths=20000)
def valve_after_valve(v):
    """The valve does not remember: the heat of its draw is that of load and loop, whatever was mixed before."""
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    t = [v.choice(k, c) for k, c in (("cold", [40.0, 60.0]), ("ret", [100.0, 112.0]), ("sto", [140.0, 160.0]))]
    cold, ret, sto = t
    v.call(mixing_valve_behavior, v.choice("l1", [0.0, 0.5, 20.0]), v.choice("f1", [0.5, 3.0]), v.choice("c1", [40.0, 55.0]), 120.0,
           v.choice("r1", [100.0, 112.0]), v.choice("s1", [140.0, 155.0]))
    load, flow = v.real("load", 0, sample=(0, 30)), v.real("flow", 0, sample=(0, 10))
    v.assume(v.lt(0, load + flow))
    r = v.call(mixing_valve_behavior, load, flow, cold, 120.0, ret, sto)
    v.check("heat balance", v.eq(r["storage_draw_gal"] * (sto - r["inlet_temp_f"]), load * (120.0 - cold) + flow * (120.0 - ret), tol=1e-6))


# ------------------------------------------------------------------ tanks: questions do not change answers
def tank_questions(v, tag, t, supplies=(110.0, 120.0, 125.0)):
    f, s = v.real(tag + "f", 0, 1), v.choice(tag + "s", list(supplies))
    g = v.real(tag + "g", 0.1, 60)
    return [v.outcome(t.get_temperature_at_fraction, f), v.outcome(t.get_usable_volume_supplyT_gal, s),
            v.outcome(t.get_average_draw_temp_f, g)], (f, s, g)


def tank_history(v, new, moves):
    """Two equal tanks moved alike; one is asked all the time, the other only at the end."""
    used, quiet = new(), new()
    for i in range(v.choice("moves", [1, 2, 4])):
        tank_questions(v, "q%d" % i, used)
        op = v.choice("op%d" % i, list(moves))
        x = v.real("x%d" % i, 0, 1)
        for t in (used, quiet):
            v.outcome(moves[op], t, x)
    a, (f, s, g) = tank_questions(v, "end", used)
    for label, u, q in (("temperature", a[0], v.outcome(quiet.get_temperature_at_fraction, f)),
                        ("usable volume", a[1], v.outcome(quiet.get_usable_volume_supplyT_gal, s)),
                        ("draw temperature", a[2], v.outcome(quiet.get_average_draw_temp_f, g))):
        asked(v, label, u, q)


@harness("T01", samples=80)
def mixed_questions(v):
    """Bounded: asking a mixed tank changes none of its later answers."""
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    if v.symbolic:
        return

    def new():
        t = MixedStorageTank(120.0)
        t.initialize(135.0, 50.0, 1.0)
        return t
    tank_history(v, new, {"heat": lambda t, x: t.heat(60 * x, 10, 150.0), "draw": lambda t, x: t.draw(30 * x, 50.0, 120.0, 150.0),
                          "in": lambda t, x: t.mix_primary_inflow(40 * x, 150.0), "loss": lambda t, x: t.apply_fixed_heat_loss_kbtuh(20 * x, 5)})


def strat_questions(v):
    """Bounded: asking a stratified tank changes none of its later answers."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    if v.symbolic:
        return
    pct, slope = v.choice("pct", [0.3, 0.6, 1.0]), v.choice("slope", [1.7, 2.8])

    def new():
        t = StratifiedTank(200.0, slope)
        t.initialize(150.0, 50.0, pct)
        return t
    tank_history(v, new, {"heat": lambda t, x: t.heat(200 * x, 10, 150.0), "draw": lambda t, x: t.draw(60 * x, 50.0, 120.0, 150.0),
                          "physical": lambda t, x: t.draw_physical_gal(60 * x, 48.0)})


harness("T02", name="strat_questions_profile", samples=80)(strat_questions)
harness("T03", name="strat_questions_moves", samples=80)(strat_questions)


@harness("T04", samples=80)
def slug_questions(v):
    """Bounded: asking the tank of a multi-pass plant changes none of its later answers, with and without a slug."""
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    if v.symbolic:
        return
    pct = v.choice("pct", [0.3, 0.7, 1.0])

    def new():
        t = SlugOverlayTank(200.0, 50.0, 150.0, 120.0, pct)
        t.initialize(150.0, 50.0, pct)
        return t
    tank_history(v, new, {"heat": lambda t, x: t.heat_slug(200 * x, 10) if t.is_slug_active() else t.heat(200 * x, 10, 150.0),
                          "draw": lambda t, x: t.draw_physical_gal(50 * x, 50.0),
                          "slug": lambda t, x: t.deactivate_slug() if t.is_slug_active() else t.activate_slug(120.0)})


# ------------------------------------------------------------------ sizing: a plant sized for something else before
def jobs(v, kind):
    """Two things to size a plant for: building, controls and the settings that may be changed in between, all drawn
    independently or alike except for one."""
    free = {"type": ["multi_family", "mens_dorm", "office_building"], "mag": (60, 300), "inlet": (40, 62),
            "ls": [False] if kind == "mprtp" else [False, True], "on": (0.3, 0.5), "sched": [0, 1, 2], "slope": (1.7, 2.8),
            "share": (0.6, 1), "run": (14, 24), "df": (0.85, 1), "sto": (140, 155), "sup": (116, 124), "flow": (2, 4), "ret": (100, 112)}
    if kind in ("plain", "instant"):
        del free["flow"], free["ret"]

    def draw(tag, x):
        return v.real(tag, *x) if isinstance(x, tuple) else v.choice(tag, x)
    first = {k: draw("a" + k, x) for k, x in free.items()}
    if v.choice("twin", [True, True, False]):
        k = v.choice("changed", [k for k in free if k not in ("sched", "share") or first["ls"]])
        then = dict(first, **{k: draw("to", free[k])})
    else:
        then = {k: draw("b" + k, x) for k, x in free.items()}
    return job(v, first, kind), job(v, then, kind)


def job(v, d, kind):
    from ecoengine.objects.building.Building import Building
    b = Building.from_building_type(d["type"], d["mag"], None, design_inlet_water_temp_f=d["inlet"], design_oat_f=30.0)
    m = ctrl_map(v, d["ls"])
    m["normal"].on_sensor_fract = d["on"]
    sched = list(SCHEDULES[d["sched"]]) if d["ls"] else ["normal"] * 24
    kw = dict(control_schedule=sched, control_map=m, strat_slope=d["slope"])
    if kind != "mprtp":
        kw["load_shift_fract_total_vol"] = d["share"]
    sets = {"max_daily_run_hr": d["run"], "defrost_factor": d["df"], "storage_temp_f": d["sto"], "supply_temp_f": d["sup"]}
    if "flow" in d:
        sets.update(return_flow_gpm=d["flow"], return_temp_f=d["ret"])
    return b, kw, sets


ANSWERS = ("get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal", "get_minimum_tm_volume_gal", "get_minimum_tm_capacity_kbtuh",
           "get_minimum_tm_ca_volume_gal", "get_er_capacity_kbtuh", "get_recirc_loss_kbtuh")


def sized_for(v, s, j, curve):
    b, kw, sets = j
    for k, x in sets.items():
        setattr(s, k, x)
    o = v.outcome(s.size, b, **kw)
    out = [("sizing", o)] if o.raised is not None else [(q, v.outcome(getattr(s, q))) for q in ANSWERS if hasattr(s, q)]
    if curve and o.raised is None:
        out.append(("curve", v.outcome(s.get_sizing_curve, b, kw["strat_slope"])))
    return out


def resized(v, kinds, curve=False):
    kind = v.choice("kind", kinds)
    first, then = jobs(v, kind)
    want = apart(lambda: sized_for(v, make(v, kind), then, curve))
    used = make(v, kind)
    sized_for(v, used, first, curve)
    if v.choice("anew", [False, True]):
        used = make(v, kind)                                # another plant sized after the first one
    if v.choice("in_place", [False, True]):                 # the building of the first sizing, changed
        b, new = first[0], then[0]
        for k in ("daily_dhw_use_supplyT_gal", "peak_load_shape", "avg_load_shape", "climate_zone", "building_type"):
            setattr(b, k, getattr(new, k))
        then = (b,) + then[1:]
    got = sized_for(v, used, then, curve)
    v.check("answers given", [q for q, _ in got] == [q for q, _ in want])
    for (q, u), (_, f) in zip(got, want):
        asked(v, q, u, f)


@harness("S01", samples=200)
def capacity_after_another(v):
    """Bounded: a plant sized for one building and settings before is sized for another as a new plant is."""
    if not v.symbolic:
        resized(v, ["plain", "sprtp", "parallel"])


@harness("S03", samples=200)
def storage_after_another(v):
    """Bounded: the same, for the storage."""
    if not v.symbolic:
        resized(v, ["plain", "sprtp", "parallel"])


@harness("S04", samples=200)
def shifting_after_another(v):
    """Bounded: the same, with load shifting in one or both sizings."""
    if not v.symbolic:
        resized(v, ["plain", "sprtp"])


@harness("R01", samples=120)
def loop_after_another(v):
    """Bounded: the same for the loop tank and heater of parallel plants."""
    if not v.symbolic:
        resized(v, ["parallel"])


@harness("R04", samples=30)
def swing_after_another(v):
    """Bounded: the same for swing plants."""
    if not v.symbolic:
        resized(v, ["swing", "swing_er"])


@harness("R02", samples=30)
def swing_tank_after_another(v):
    """Bounded: the same for the swing tank and element."""
    if not v.symbolic:
        resized(v, ["swing"])


@harness("S07", samples=40)
def batch_after_another(v):
    """Bounded: the same for multi-pass plants."""
    if not v.symbolic:
        resized(v, ["mprtp"])


@harness("S06", samples=40)
def curve_after_curve(v):
    """Bounded: a curve computed after one for another building and other settings is that of a new plant."""
    if not v.symbolic:
        resized(v, ["plain", "parallel", "sprtp"], curve=True)


# ------------------------------------------------------------------ runs: totals asked for while a run grows
@harness("M01", samples=60)
def totals_while_recording(v):
    """Bounded: totals asked for in the middle of a run do not stick: after further steps they cover all of them."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    if v.symbolic:
        return
    dt = v.choice("dt", [1, 10])
    tm = v.choice("tm", [False, True])
    used, quiet = SimulationRun(1000, dt), SimulationRun(1000, dt)
    questions = ("get_total_energy_kwh", "get_peak_demand_kw", "get_summary", "get_monthly_energy_kwh", "is_successful")
    for i in range(v.choice("steps", [3, 6])):
        kw = {"tm_tank_temp_f": 120.0, "tm_heater_output_kbtuh": 3.0, "tm_heater_input_kw": v.choice("t%d" % i, [None, 0.0, 2.0])} if tm else {}
        p = v.choice("p%d" % i, [None, 0.0, 3.0, 5.0, 9.0])
        for r in (used, quiet):
            r.record_timestep(1.0, 10.0, 5.0, p, 50.0, 50.0, [120.0] * 6, **kw)
            if i == 2:
                r.record_outage(dt)
        for q in questions:
            v.outcome(getattr(used, q))
    for q in questions:
        asked(v, q, v.outcome(getattr(used, q)), v.outcome(getattr(quiet, q)))


@harness("U03", samples=12)
def costs_of_two_tariffs(v):
    """Bounded: the cost of a run under one tariff does not depend on the tariff it was costed under before."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    if v.symbolic:
        return

    def tariff(tag):
        a = v.choice(tag + "a", [9, 16])
        return UtilityCostTracker.from_params(v.real(tag + "base", 0, 40), a, a + 5, v.real(tag + "pd", 1, 20), v.real(tag + "pe", 0.1, 0.6),
                                              v.real(tag + "od", 1, 9), v.real(tag + "oe", 0.05, 0.2))
    one, two = tariff("x"), tariff("y")
    used, quiet = SimulationRun(525600, 60), SimulationRun(525600, 60)
    period = v.choice("period", [7, 11, 13])
    for i in range(8760):
        p = None if i % 17 == 0 else float(i % period)
        for r in (used, quiet):
            r.record_timestep(1.0, 10.0, 5.0, p, 50.0, 50.0, [120.0] * 6)
    for q in ("get_annual_utility_cost", "get_monthly_cost_breakdown", "get_monthly_cost_breakdown_detailed"):
        v.outcome(getattr(used, q), one)
        asked(v, q, v.outcome(getattr(used, q), two), v.outcome(getattr(quiet, q), two))


# ------------------------------------------------------------------ steps of a plant that has run before
def built(v, kind, b, m, sched):
    """A plant of the kind, sized and built for the building."""
    cls, kw = type(make(v, kind)), dict(control_schedule=list(sched), control_map=m)
    if kind == "instant":
        return cls.from_size(b, 120.0, 150.0)
    if kind == "plain":
        return cls.from_size(b, 120.0, 150.0, **kw)
    if kind == "parallel":
        return cls.from_size(b, 120.0, 150.0, 112.0, 3.0, 130.0, 140.0, **kw)
    return cls.from_size(b, 120.0, 150.0, 112.0, 3.0, **kw)


def rested(s, inlet, pct, tm):
    """Tanks and heaters put into a given state."""
    if s.storage_tank is not None:
        s.storage_tank.initialize(storage_temp_f=s.storage_temp_f, cold_temp_f=inlet, percent_useable=pct)
    if getattr(s, "tm_storage_tank", None) is not None:
        s.tm_storage_tank.initialize(storage_temp_f=tm, cold_temp_f=inlet, percent_useable=1.0)
    for w in list(s.water_heaters) + [getattr(s, "tm_water_heater", None)]:
        if w is not None:
            w.turn_off()


def steps_again(v, kinds):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.building.ClimateZone import ClimateZone
    kind = v.choice("kind", kinds)
    zones = [ClimateZone.from_design_conditions(t, w) for t, w in ((30.0, 45.0), (70.0, 60.0))]
    sizes = [v.real("mag%d" % i, 60, 300) for i in range(2)]
    bs = [Building.from_building_type(v.choice("type%d" % i, ["multi_family", "mens_dorm"]), sizes[i], zones[i]) for i in range(2)]
    ls = v.choice("ls", [False, True]) if kind != "mprtp" else False
    sched = SCHEDULES[v.choice("sched", [0, 1])] if ls else ["normal"] * 24
    m = ctrl_map(v, ls)
    new = lambda: built(v, kind, bs[0], m, sched)
    pct, tm = v.choice("pct", [0.2, 0.5, 1.0]), v.choice("tm", [119.0, 124.0, 138.0])
    dt, at = v.choice("dt", [1, 10]), v.int_("at", 0, 1440 // 10 - 1)

    def end(s):
        rested(s, 50.0, pct, tm)
        out = []
        for i in range(3):
            out.append(("step %d" % i, v.outcome(s.simulate_step, bs[0], at + i, dt)))
        return out
    want = apart(lambda: end(new()))
    used = new()
    rested(used, 45.0, 0.4, 125.0)
    for k in range(v.choice("runs", [1, 2])):
        b, start = v.choice("b%d" % k, bs), v.int_("start%d" % k, 0, 143)
        for i in range(v.choice("n%d" % k, [1, 30])):
            v.outcome(used.simulate_step, b, start + i, v.choice("d%d" % k, [1, 10]))
    for (q, u), (_, f) in zip(end(used), want):
        asked(v, q, u, f)


@harness("M03", samples=60)
def step_after_steps(v):
    """Bounded: steps of a plant whose tanks and heaters are put into a given state do not depend on the steps, buildings and
    interval lengths it was run with before."""
    if not v.symbolic:
        steps_again(v, ["plain", "instant", "parallel", "sprtp", "mprtp"])


@harness("R03", samples=30)
def swing_step_after_steps(v):
    """Bounded: the same for swing plants."""
    if not v.symbolic:
        steps_again(v, ["swing", "swing_er"])


# ------------------------------------------------------------------ the engine and the catalogue
@harness("E02", samples=40)
def engine_after_engine(v):
    """Bounded: the answers of an engine and of the catalogue do not depend on engines built and questions asked before."""
    if v.symbolic:
        return
    from ecoengine.interfaces import EcosizerEngine as E
    free = {"building_type": ["multi_family", "mens_dorm"], "magnitude": (60, 300), "zip_code_or_climate_zone": ["94720", 3, 12, "90001"],
            "supply_temp_f": (118, 124), "storage_temp_f": (142, 155),
            "schematic": ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "instant_wh"],
            "return_temp_f": (100, 112), "return_flow_gpm": (2, 4), "max_daily_run_hr": (14, 24), "aquastat_fract": (0.3, 0.5),
            "defrost_factor": (0.85, 1)}

    def draw(tag, x):
        return v.real(tag, *x) if isinstance(x, tuple) else v.choice(tag, x)
    first = {k: draw("a" + k, x) for k, x in free.items()}
    if v.choice("twin", [True, True, False]):
        k = v.choice("changed", list(free))
        then = dict(first, **{k: draw("to", free[k])})
    else:
        then = {k: draw("b" + k, x) for k, x in free.items()}
    cap = [("MODELS_ColmacCxA_20_C_SP", v.choice("%soat" % t, [30.0, 60.0]), v.choice("%sin" % t, [45.0, 60.0]), v.choice("%sout" % t, [130.0, 150.0]))
           for t in "ab"]
    capkw = [{"num_heaters": v.choice("%sn" % t, [1, 3]), "return_as_kw": v.choice("%skw" % t, [True, False])} for t in "ab"]
    excl = [v.choice(t + "excl", [None, [1, 2], [96, 40]]) for t in "ab"]
    kinds = [v.choice(t + "multi", [{}, {"multi_pass": True}, {"exclude_models": ["MODELS_ColmacCxA_20_C_SP"]}]) for t in "ab"]

    def ask(i, kw):
        def sized():
            e = E.EcosizerEngine(**kw)
            return [e.get_sizing_results(), e.get_hw_magnitude()]
        place = {"zip_code": kw["zip_code_or_climate_zone"]} if isinstance(kw["zip_code_or_climate_zone"], str) else \
            {"zone_id": kw["zip_code_or_climate_zone"]}
        return [("engine", v.outcome(sized)), ("capacity", v.outcome(E.get_hpwh_output_capacity, *cap[i], **capkw[i])),
                ("stations", v.outcome(E.get_weather_stations, *([] if excl[i] is None else [list(excl[i])]))),
                ("models", v.outcome(E.get_list_of_models, **kinds[i])), ("buckets", v.outcome(E.get_oat_buckets, **place))]
    want = apart(lambda: ask(1, then))
    for q, o in ask(0, first):
        if o.raised is None and isinstance(o.value, (list, dict)) and q in ("stations", "models"):
            o.value.clear()                                 # the answer is the caller's own
    for (q, u), (_, f) in zip(ask(1, then), want):
        asked(v, q, u, f)

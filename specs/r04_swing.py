"""R04: primary plant and extra element of swing systems carry what the swing tank passes on."""
from vengine.harness import harness, StandIn, Fold, Contract, CONTRACTS
from . import RHO
from .s01_sizing import controls, building, usable_share, hot_share, first_shed, SCHEDULES, EVENING, FLATTER, TYPES
from .r01_recirc import classes


# ------------------------------------------------------------------ the swing tank's minute
def mixed_in(v, t, hw, feed, vol, loss):
    """Temperature after `hw` gallons at `feed` have replaced as much of the tank and the loop has taken a minute's heat."""
    return t + v.mx(0.0, hw) * (feed - t) / vol - loss * 1000.0 / 60.0 / (RHO * vol)


def element(v, on, t, vol, cap, sup, off):
    """-> (on?, share of the minute the element runs): it stops at `off`; an idle one starts at or below `sup` and makes
    up, within the minute, no more than is missing to `sup`."""
    full = cap * 1000.0 / 60.0 / (RHO * vol)
    over = v.lt(off, t + full, exact=True)
    low = v.le(t, sup, exact=True)
    run_on = v.ite(over, v.mx(0.0, (off - t) / full), 1.0)
    run_off = v.ite(low, v.mn(1.0, (sup - t) / full), 0.0)
    return v.ite(on, v.not_(over), low), v.ite(on, run_on, run_off), full


def minute(v, on, t, hw, feed, vol, loss, cap, sup, off):
    """-> (on?, temperature, share) with the element in service."""
    t1 = mixed_in(v, t, hw, feed, vol, loss)
    after, share, full = element(v, on, t1, vol, cap, sup, off)
    return after, t1 + full * share, share


def any_swing(v, kind=None):
    """A sized swing plant: any tank, element and loop."""
    sup, sto = v.real("sup", 100, 140), v.real("sto", 105, 180)
    ret, flow = v.real("ret", 80, 139), v.real("flow", 0, lo_open=True, sample=(0.5, 30))
    v.assume(v.and_(v.lt(sup, sto, exact=True), v.lt(ret, sup, exact=True)))
    s = v.call(classes()[kind or v.choice("kind", ["swing", "swing_er"])], [], None, sup, sto, ret, flow)
    s._minimum_tm_volume_gal, s._minimum_tm_capacity_kbtuh          # not there: not applicable
    s._minimum_tm_volume_gal = v.real("vol", 40, 1250)
    s._minimum_tm_capacity_kbtuh = v.real("cap", 0, lo_open=True, sample=(1, 150))
    return s


def args_of(v, s, on, t, hw, feed):
    return (on, t, hw, feed, s._minimum_tm_volume_gal, v.call(s.get_recirc_loss_kbtuh))


@harness("R04", timeout_ms=60000)
def swing_minute(v):
    """A minute of the swing tank: heat in, heat out, the element's part, and refusal where the element cannot keep
    supply temperature."""
    s = any_swing(v)
    on, t = v.boolean("on"), v.real("t", 100, 180)
    hw, feed = v.real("hw", 0, sample=(0, 60)), s.storage_temp_f
    sup, vol, cap = s.supply_temp_f, s._minimum_tm_volume_gal, s._minimum_tm_capacity_kbtuh
    off = sup + 8.0
    v.assume(v.and_(v.le(sup, t, exact=True), v.lt(hw, vol, exact=True)))
    o = v.outcome(s._run_one_swing_step, on, t, hw, feed)
    after, t2, share = minute(v, on, t, hw, feed, vol, v.call(s.get_recirc_loss_kbtuh), cap, sup, off)
    v.assume(v.not_(v.between(sup - 1e-6, t2, sup - 1e-12)) if not v.symbolic else True)
    cold = v.lt(t2, sup, exact=True)
    if o.raised is not None:
        v.check("refused only where the tank would be too cold", v.and_(o.raised is ValueError, v.le(t2, sup)))
        return
    v.check("kept at supply temperature", v.le(sup, o.value[1]))
    v.check("temperature follows the heat put in and taken", v.eq(o.value[1], t2))
    v.check("element runs its share of the minute", v.eq(o.value[2], share))
    v.check("element switches at supply temperature and its off temperature", v.iff(o.value[0], after))
    v.check("never refused without need", v.le(sup, t2))


# ------------------------------------------------------------------ the extra element
def er_minute(v, on, t, hw, feed, vol, loss, cap, sup):
    """The same with the tank held at supply temperature by whatever is missing: -> (on 0/1, temperature, missing)."""
    after, t2, _ = minute(v, v.lt(0.5, on, exact=True), t, hw, feed, vol, loss, cap, sup, sup + 8.0)
    return v.ite(after, 1.0, 0.0), v.mx(sup, t2), v.mx(0.0, sup - t2)


def er_terms(v, *a):
    return [v.term("er_" + n, lambda *x, k=k: er_minute(v, *x)[k], *a) for k, n in enumerate(("on", "temp", "lack"))]


def flag(v, x):
    if isinstance(x, bool):
        return 1.0 if x else 0.0
    return v.ite(x != 0 if not hasattr(x, "neg") else x, 1.0, 0.0)


def er_args(v, s, on, t, hw, feed, cap):
    return (flag(v, on), t, hw, feed, s._minimum_tm_volume_gal, v.call(s.get_recirc_loss_kbtuh), cap, s.supply_temp_f)


def er_setup(v):
    s = any_swing(v, "swing_er")
    return s._run_one_swing_step_er.__func__, (s, v.boolean("on"), v.real("t", 100, 180), v.real("hw", 0, sample=(0, 60)),
                                               v.real("feed", 32, 180), v.real("base", 0, lo_open=True, sample=(1, 100)))


Contract("SwingERTrdOffSystem._run_one_swing_step_er",
         requires=lambda v, s, on, t, hw, feed, cap: v.and_(
             v.le(s.supply_temp_f, t, exact=True), v.le(0.0, hw, exact=True), v.lt(hw, s._minimum_tm_volume_gal, exact=True),
             v.lt(0.0, cap, exact=True)),
         ensures=lambda v, old, r, s, on, t, hw, feed, cap: [
             ("element", v.eq(flag(v, r[0]), er_minute(v, *er_args(v, s, on, t, hw, feed, cap))[0])),
             ("temperature", v.eq(r[1], er_minute(v, *er_args(v, s, on, t, hw, feed, cap))[1])),
             ("what is missing", v.eq(r[2], er_minute(v, *er_args(v, s, on, t, hw, feed, cap))[2])),
             ("kept at supply temperature", v.le(s.supply_temp_f, r[1])), ("never negative", v.le(0.0, r[2]))],
         value=lambda v, s, on, t, hw, feed, cap: (lambda x: (x[0] > 0.5, x[1], x[2]))(er_terms(v, *er_args(v, s, on, t, hw, feed, cap))),
         gives=lambda v, old, r, s, on, t, hw, feed, cap: [
             ("a flag", (lambda x: v.or_(v.eq(x, 0.0), v.eq(x, 1.0)))(er_terms(v, *er_args(v, s, on, t, hw, feed, cap))[0])),
             ("kept at supply temperature", v.le(s.supply_temp_f, r[1])), ("never negative", v.le(0.0, r[2]))],
         setup=er_setup)


def er_swing(v):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    return SwingERTrdOffSystem


@harness("R04", timeout_ms=60000)
def short_minute(v):
    """A minute of the swing tank with a plant that may fall short."""
    CONTRACTS["SwingERTrdOffSystem._run_one_swing_step_er"].body(v)


class Minutes(StandIn):
    """Use per minute, known as a function of the minute only."""

    def __init__(self, v, hours, most):
        self.v, self.hours, self.most = v, hours, most

    def __len__(self):
        return 60 * self.hours

    def __truediv__(self, x):
        return self

    def __getitem__(self, i):
        use = self.v.term("use_of_minute", None, i)
        self.v.lemma(use >= 0, use < self.most)
        return use


def er_step(v, use, gen, store, inlet, sup, sto, vol, loss, cap):
    def step(g, t):
        hw = use(t) * (sup - inlet) / (g["temp"] - inlet)
        have = g["level"] + gen
        short = (have * sto + (hw - have) * inlet) / v.ite(v.lt(0.0, hw, exact=True), hw, 1.0)
        feed = v.ite(v.le(hw, 0.0, exact=True), inlet, v.ite(v.le(hw, have, exact=True), sto, short))
        on, temp, lack = er_terms(v, g["on"], g["temp"], hw, feed, vol, loss, cap, sup)
        return {"level": v.mn(v.mx(have - hw, 0.0), store), "temp": temp, "on": on, "most": v.mx(g["most"], lack)}
    return step


def er_account(v, L, g):
    return [("water in store", v.eq(L["primary_level"], g["level"])), ("swing tank", v.eq(L["swing_t"], g["temp"])),
            ("element", v.eq(flag(v, L["swingheating"]), g["on"])), ("largest shortfall", v.eq(L["max_deficit"], g["most"])),
            ("in range", v.and_(v.le(0.0, g["level"], exact=True), v.le(0.0, g["most"], exact=True),
                                v.le(v.sup, g["temp"], exact=True), v.or_(v.eq(g["on"], 0.0), v.eq(g["on"], 1.0))))]


ER_LOOP = {"SwingERTrdOffSystem._size_er_element":
           Fold(lambda v, L: "from_full" if hasattr(L["primary_level"], "t") else "from_empty",
                ["primary_level", "swing_t", "swingheating", "max_deficit"], er_account, which=1)}


@harness("R04", timeout_ms=60000, samples=30, loops=ER_LOOP, wall=250, max_paths=40000,
         uses=["SwingERTrdOffSystem._run_one_swing_step_er", "_hr_to_min"])
def extra_element(v):
    """The element is enlarged by what is missing in the worst minute of two days from the first hour in which the plant
    falls behind, begun with the store empty and with the store full."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    sup, sto, inlet = v.real("sup", 100, 140), v.real("sto", 105, 180), v.real("inlet", 32, 80)
    ret, flow = v.real("ret", 81, 139), v.real("flow", 0, lo_open=True, sample=(0.5, 10))
    v.assume(v.and_(v.lt(sup, sto, exact=True), v.lt(ret, sup, exact=True)))
    daily, cap = v.real("daily", 0, lo_open=True, sample=(500, 6000)), v.real("cap", 0, lo_open=True, sample=(5, 300))
    store, vol = v.real("store", 0, lo_open=True, sample=(50, 2000)), v.real("vol", 0, lo_open=True, sample=(80, 600))
    base, safe = v.real("base", 0, lo_open=True, sample=(2, 60)), v.real("safe", 1, 2)
    shape = v.choice("shape", [EVENING, FLATTER])
    v.assume(v.lt(daily * max(shape) / 60.0, vol, exact=True))
    v.sup = sup
    b = building(v, daily, shape, inlet)
    loss = flow * 60.0 * RHO * (sup - ret) / 1000.0
    gen = cap * 1000.0 / (RHO * (sto - inlet)) / 60.0
    first = [h for h in range(24) if shape[h - 1] <= 1.0 / 24.0 and shape[h] > 1.0 / 24.0][0]
    if v.symbolic:
        v.minutes = Minutes(v, 48, vol)
        v.hours = [daily * shape[(first + h) % 24] for h in range(48)]
        use = v.minutes.__getitem__
    else:
        def use(t):
            return daily * shape[(first + t // 60) % 24] / 60.0
    step = er_step(v, use, gen, store, inlet, sup, sto, vol, loss, base)
    start = {"level": 0.0, "temp": sup, "on": 0.0, "most": 0.0}
    one = v.fold("from_empty", 2880, start, step)
    two = v.fold("from_full", 2880, dict(start, level=store, most=v.later(one, "most")), step)
    m = {"normal": controls(v, 0.4, 120.0, 0.1, 150.0, 150.0)}
    s = v.call(er_swing(v).from_components, [v.call(WaterHeater.from_nominal_capacity, cap, ["normal"] * 24, m)],
               v.call(StratifiedTank, store), v.call(MixedStorageTank, vol), base, b, sup, sto, ret, flow, er_safety_factor=safe)
    er = v.call(s.get_er_capacity_kbtuh)
    v.check("extra capacity makes up the worst minute", v.eq(er, safe * two["most"] * vol * RHO * 60.0 / 1000.0, tol=1e-6))
    v.check("on top of the element for the loop", v.eq(v.call(s.get_minimum_tm_capacity_kbtuh), base + er))
    v.check("in kilowatts", v.eq(v.call(s.get_er_capacity_kw) * 3.412142, er, tol=1e-6))
    v.check("the element in place has it", v.eq(v.call(s.tm_water_heater.get_capacity_kbtuh, 30.0, sup), base + er))


def hours_setup(v):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import _hr_to_min
    import numpy as np
    a = np.array([v.real(f"h{k}", 0, 500) for k in range(3)], dtype=object if v.symbolic else float)
    v.hours = list(a)
    return _hr_to_min, (a,)


Contract("_hr_to_min", value=lambda v, a: v.minutes,
         # of the two days meant, at sixty times the use of the minute
         requires=lambda v, a: len(a) == len(v.hours) and v.and_(*[v.eq(a[h], v.hours[h]) for h in range(len(a))]),
         ensures=lambda v, old, r, a: [("sixty minutes an hour", len(r) == 60 * len(a)), ("the value of its hour", v.and_(
             *[v.eq(r[60 * h + m], a[h]) for h in range(len(a)) for m in (0, 1, 30, 59)]))],
         gives=lambda v, old, r, a: [], setup=hours_setup)


@harness("R04")
def minutes_of_hours(v):
    """Every minute has the use of its hour."""
    CONTRACTS["_hr_to_min"].body(v)


# ------------------------------------------------------------------ the primary plant
def passed_on(use, inlet, sup, sto, vol, loss, cap):
    """Water the swing tank takes from the plant, minute by minute, from a tank just above supply temperature; None where
    the element cannot keep supply temperature."""
    t, on, out = sup + 0.1, False, [use[0]]
    dT = cap * 1000.0 / 60.0 / (RHO * vol)
    for u in use[1:]:
        hw = u * (sup - inlet) / (t - inlet)
        out.append(hw)
        t += hw * (sto - t) / vol - loss * 1000.0 / 60.0 / (RHO * vol)
        if on:
            run = min(1.0, max(0.0, (sup + 8.0 - t) / dT))
            on = t + dT <= sup + 8.0
        else:
            on = t <= sup
            run = min(1.0, (sup - t) / dT) if on else 0.0
        t += dT * run
        if t < sup - 1e-9:
            return None
    return out


def shortfall(gen, out):
    lack = worst = 0.0
    for g, o in zip(gen, out):
        lack += o - g
        worst = max(worst, lack)
    return worst


def by_minute(hours):
    return [x / 60.0 for x in hours for _ in range(60)]


def swing_need(daily, shape, run, tank):
    """-> (largest shortfall at storage temperature, share of the daily use taken from the plant)"""
    behind = [x > 1.0 / run for x in shape]
    starts = [h for h in range(24) if behind[h] and not behind[h - 1]]
    best, share = 0.0, 1.0
    for h in sorted(set(starts + [h + 1 for h in starts if h < 23])):
        day = [shape[(h + k) % 24] for k in range(24)]
        out = passed_on(by_minute([x * daily for x in day]), *tank)
        if out is None:
            return None
        part = sum(out) / daily
        lack = shortfall(by_minute([daily * part / run] * 24), out)
        if lack > best + 1e-12:
            best, share = lack, part
    return best, share


def sized_swing(v, ls):
    sup, sto, inlet = v.choice("sup", [120.0, 125.0]), v.choice("sto", [150.0, 140.0, 160.0]), v.real("inlet", 35, 65)
    ret, flow = v.real("ret", 100, 118), v.real("flow", 0.5, 5)
    daily = v.real("daily", 500, 8000)
    run, df, sf = v.choice("run", [16.0, 13.0, 20.0, 24.0]), v.choice("df", [1.0, 0.8]), v.choice("sf", [1.2, 1.6])
    slope = v.choice("slope", [2.8, 1.5])
    shape = v.choice("shape", [EVENING, FLATTER])
    kind = v.choice("kind", ["swing", "swing_er"])
    on_n, on_s, on_l, off_l = v.real("on_n", 0.3, 0.5), v.real("on_s", 0.55, 0.8), v.real("on_l", 0.2, 0.29), v.real("off_l", 0, 0.15)
    m = {"normal": controls(v, on_n, sup, 0.1, sto, sto)}
    sch = None
    if ls:
        m["shed"] = controls(v, on_s, sup, 0.3, sto, sto)
        m["loadUp"] = controls(v, on_l, sup, off_l, sto, sto)
        sch = v.choice("schedule", SCHEDULES)
    avg = FLATTER if shape is EVENING else EVENING
    b = building(v, daily, shape, inlet, avg)
    s = v.call(classes()[kind], [], None, sup, sto, ret, flow, tm_safety_factor=sf, max_daily_run_hr=run, defrost_factor=df)
    fract = v.choice("fract", [1.0, 0.8])
    o = v.outcome(s.size, b, control_schedule=sch or ["normal"] * 24, control_map=m, strat_slope=slope,
                  load_shift_fract_total_vol=fract)
    loss = flow * 60.0 * RHO * (sup - ret) / 1000.0
    if o.raised is not None:
        v.assume(False)
    vol = s.get_minimum_tm_volume_gal()
    tank = (inlet, sup, sto, vol, loss, sf * loss)
    hours = min(run, sum(1 for x in sch if x != "shed")) if ls else run
    need = swing_need(daily, shape, hours, tank)
    v.check("sized only where the element keeps supply temperature", need is not None)
    lack, part = need
    store = lack * (sto - inlet) / (sup - inlet) / usable_share(v, on_n, sup, slope, sup, sto, inlet)
    rate = daily * part / hours
    if ls:
        use = [x * daily for x in avg]
        block, n = first_shed(sch)
        shed = [use[h] for h in block]
        out = passed_on(by_minute(shed), *tank)
        shifted = sum(out) * fract
        lrate = 0.0
        if n:
            up = [use[h] for h in range(block[0] - n, block[0])]
            used = sum(passed_on(by_minute(up), *tank))
            pl, pn, ps = [hot_share(v, on, sup, slope, sup, sto) for on in (on_l, on_n, on_s)]
            lrate = (shifted * (pl - pn) / (pl - ps) + used) / n
        rate = max(rate, lrate)
        end = block[-1] + 1
        out = passed_on(by_minute([use[(end + k) % 24] for k in range(24)]), *tank)
        gen = by_minute([0.0 if sch[(end + k) % 24] == "shed" else rate for k in range(24)])
        need_ls = (shortfall(gen, out) + shifted) * (sto - inlet) / (sup - inlet)
        band = usable_share(v, off_l, sto, slope, sup, sto, inlet) - usable_share(v, on_s, sup, slope, sup, sto, inlet)
        store = max(store, need_ls / band)
    v.check("capacity makes the water passed on in the permitted hours", v.eq(
        s.get_minimum_capacity_kbtuh() * df * 1000.0, rate * RHO * (sto - inlet), tol=1e-9))
    v.check("storage covers the largest shortfall", v.eq(s.get_minimum_storage_storageT_gal(), store, tol=1e-6))


@harness("R04", samples=80)
def swing_plant(v):
    """Bounded: storage and capacity of whole sizings against a minute account of the swing tank."""
    if not v.symbolic:
        sized_swing(v, False)


@harness("R04", samples=80)
def swing_plant_load_shift(v):
    """Bounded: the same with load shifting."""
    if not v.symbolic:
        sized_swing(v, True)


@harness("R04", samples=25)
def built_swing(v):
    """Bounded: the plant that is built has the parts that were sized."""
    if v.symbolic:
        return
    sup, sto, inlet = v.choice("sup", [120.0, 125.0]), v.choice("sto", [150.0, 140.0]), v.real("inlet", 35, 65)
    ret, flow, daily = v.real("ret", 100, 118), v.real("flow", 0.5, 5), v.real("daily", 500, 8000)
    run, df, sf, slope = v.choice("run", [16.0, 13.0]), v.choice("df", [1.0, 0.8]), v.choice("sf", [1.3, 1.6]), v.choice("slope", [2.8, 1.5])
    ls = v.choice("ls", [False, True])
    m = {"normal": controls(v, 0.4, sup, 0.1, sto, sto)}
    sch = ["normal"] * 24
    if ls:
        m["shed"], m["loadUp"] = controls(v, 0.7, sup, 0.3, sto, sto), controls(v, 0.3, sup, 0.0, sto, sto)
        sch = v.choice("schedule", SCHEDULES)
    kind = v.choice("kind", ["swing", "swing_er"])
    kw = {"er_safety_factor": 1.4} if kind == "swing_er" else {}
    b = building(v, daily, EVENING, inlet, FLATTER)
    cls = classes()[kind]
    fract = v.choice("fract", [1.0, 0.8])
    a = v.outcome(cls.from_size, b, sup, sto, ret, flow, tm_safety_factor=sf, max_daily_run_hr=run, defrost_factor=df,
                  control_schedule=sch, control_map=m, strat_slope=slope, load_shift_fract_total_vol=fract, **kw)
    w = v.call(cls, [], None, sup, sto, ret, flow, tm_safety_factor=sf, max_daily_run_hr=run, defrost_factor=df, **kw)
    o = v.outcome(w.size, b, control_schedule=sch, control_map=m, strat_slope=slope, load_shift_fract_total_vol=fract)
    v.check("built exactly where it can be sized", (a.raised is None) == (o.raised is None))
    if a.raised is not None:
        return
    s = a.value
    v.check("sized as asked", all(v.eq(getattr(s, f)(), getattr(w, f)()) for f in (
        "get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal", "get_minimum_tm_volume_gal",
        "get_minimum_tm_capacity_kbtuh", "get_minimum_tm_ca_volume_gal", "get_recirc_loss_kbtuh")))
    v.check("with the settings asked for", all(v.eq(getattr(s, f), getattr(w, f)) for f in (
        "supply_temp_f", "storage_temp_f", "return_temp_f", "return_flow_gpm", "tm_safety_factor", "max_daily_run_hr", "defrost_factor")))
    v.check("heaters of the sized capacity under the controls", v.eq(sum(
        x.get_capacity_kbtuh(30.0, sto) for x in s.water_heaters), w.get_minimum_capacity_kbtuh()) and all(
        list(x.control_schedule) == list(sch) and x.control_map == m for x in s.water_heaters))
    v.check("a tank of the sized volume and slope", v.eq(s.storage_tank.total_volume_gal, w.get_minimum_storage_storageT_gal())
            and v.eq(s.storage_tank.strat_slope, slope))
    v.check("a swing tank of the sized volume", v.eq(s.tm_storage_tank.total_volume_gal, w.get_minimum_tm_volume_gal()))
    v.check("an element of the sized capacity", v.eq(s.tm_water_heater.get_capacity_kbtuh(30.0, sup), w.get_minimum_tm_capacity_kbtuh()))
    c = [s.tm_water_heater.get_controls_for_hour(h) for h in range(24)]
    v.check("switching at supply temperature and eight degrees above", all(
        v.eq(x.on_trigger_t_f, sup) and v.eq(x.off_trigger_t_f, sup + 8.0) and v.eq(x.outlet_temp_f, sup + 8.0) for x in c))
    # any mixed tank reads the same at every height, so the sensor heights do not matter


@harness("R04", samples=10)
def coverage_points(v):
    """Bounded: each point of the resistance coverage curve is the element sized for that share of the use."""
    if v.symbolic:
        return
    sup, sto, inlet, ret, flow = 120.0, v.choice("sto", [150.0, 140.0]), v.real("inlet", 40, 60), 112.0, v.real("flow", 1, 4)
    daily, add = v.real("daily", 1500, 6000), v.choice("add", [1.0, 1.3])
    cls = classes()["swing_er"]
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    m = {"normal": controls(v, 0.4, 120.0, 0.1, 150.0, 150.0)}
    cap, store, base = daily * v.real("part", 0.01, 0.028), daily * v.real("store", 0.02, 0.2), v.real("base", 8, 25)

    def plant(share, safe):
        b = building(v, daily * share, EVENING, inlet)
        return b, cls.from_components([WaterHeater.from_nominal_capacity(cap, ["normal"] * 24, m)], StratifiedTank(store),
                                      MixedStorageTank(300.0), base, b, sup, sto, ret, flow, er_safety_factor=safe)
    b, s = plant(1.0, 1.2)
    o = v.outcome(s.get_er_sized_points, b, add)
    if s.get_er_capacity_kbtuh() <= 0.0:
        v.check("refused without need for resistance", o.raised is RuntimeError)
        return
    kw, share, k = o.value
    want, p = [], 120
    while p > 0:
        x = s if p == 100 else plant(p / 100.0, add)[1]
        total = x.get_minimum_tm_capacity_kbtuh() / 3.412142
        v.assume(abs(total % 1.0 - 0.5) > 1e-6)
        want.append((p, round(total, 0)))
        p -= 10
        if x.get_er_capacity_kbtuh() <= 0.0:
            break
    want.reverse()
    v.check("one point per ten percent down to where none is needed", v.same([float(x) for x in share], [float(x[0]) for x in want]))
    v.check("each point is the element for that share", len(kw) == len(want) and all(v.eq(a, x[1]) for a, x in zip(kw, want)))
    v.check("the marked point is the whole use", 0 <= k < len(share) and share[k] == 100.0)

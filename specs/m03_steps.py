"""M03 one simulated step of each plant; R03 the swing tank's heat balance."""
from vengine.harness import harness, StandIn
from . import RHO, KBTUH_PER_KW
from .s01_sizing import controls, FLATTER, EVENING

FR = (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)


class Map(StandIn):
    """A performance map that tells its conditions apart."""

    def __init__(self, cap, kw):
        self.cap, self.kw = cap, kw

    def get_capacity_kbtuh(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        inlet = 50.0 if inlet_temp_f is None else inlet_temp_f
        return self.cap + 0.25 * oat_f + 0.125 * outlet_temp_f + 0.5 * inlet

    def get_power_in_kw(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        if self.kw is None:
            return None
        inlet = 50.0 if inlet_temp_f is None else inlet_temp_f
        return self.kw + 0.0625 * oat_f + 0.25 * outlet_temp_f + 0.125 * inlet

    def get_cop(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        kw = self.get_power_in_kw(oat_f, outlet_temp_f, inlet_temp_f)
        return None if kw is None else self.get_capacity_kbtuh(oat_f, outlet_temp_f, inlet_temp_f) / kw / KBTUH_PER_KW

    def is_within_operating_bounds(self, oat_f):
        return True


def day(ls):
    """Schedule of a heater: modes change at 6, 16 and 20 o'clock."""
    return ["normal"] * 6 + ["loadUp" if ls else "day"] * 10 + ["shed" if ls else "night"] * 4 + ["normal"] * 4


def heater(v, tag, ls, cap, kw, active):
    """A heater with three modes of its own and the controls of each."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    m = {}
    for k, name in enumerate(("normal", "loadUp" if ls else "day", "shed" if ls else "night")):
        on = v.real("on%s%d" % (tag, k), 90, 140)
        out = v.real("out%s%d" % (tag, k), 120, 180)
        m[name] = controls(v, 0.25 + 0.25 * k, on, 0.125 * k, on + 12.0 + k, out)
    w = v.call(WaterHeater, Map(cap, kw), day(ls), m)
    if active:
        v.call(w.turn_on)
    return w


STEPS = [(0, 1), (359, 1), (360, 1), (959, 1), (1199, 1), (1200, 1), (1439, 1), (1440, 1), (5000, 1), (35, 10), (36, 10),
         (119, 10), (120, 10), (52559, 10), (19, 60), (20, 60), (40, 60)]


ACTS = [(False, False), (False, True), (True, False), (True, True)]
KWS = [(2.0, 3.0), (None, 3.0), (2.0, None), (None, None)]
# the symbolic runs combine the discrete settings in pairs, the concrete ones at random
CASES = [(STEPS[k % 17], k % 2 == 0, ACTS[k % 4], KWS[(k // 4 + k) % 4], (k // 2 % 2, k // 3 % 2, k // 5 % 2)) for k in range(34)]


def case(v, kind="plain"):
    if v.symbolic:
        return v.choice("case", CASES if kind == "plain" else CASES[:17])
    return (v.choice("step", STEPS + [(13, 45), (61, 29), (12, 120), (1007, 29)]), v.choice("ls", [False, True]), v.choice("acts", ACTS), v.choice("kws", KWS),
            (v.choice("n", [0, 1]), v.choice("tm_act", [0, 1]), v.choice("tm_kw", [0, 1])))


def setting(v, step):
    """A building and the conditions of one step."""
    from ecoengine.objects.building.Building import Building
    inlet, oat = v.real("inlet", 35, 75), v.real("oat", -10, 100)
    daily = v.real("daily", 0, lo_open=True, sample=(20, 3000))
    b = v.call(Building, None, daily, FLATTER, EVENING, design_inlet_water_temp_f=inlet, design_oat_f=oat)
    i, dt = step
    return b, inlet, oat, daily, i, dt, i * dt // 60 % 24


def run_heaters(v, ws, h, probe, oat, inlet):
    """What the heaters do on the tank as the step finds it: heat, power and the hottest outlet."""
    q, kws, outs = 0.0, [], []
    for w, was in ws:
        c = w.control_map[w.control_schedule[h]]
        on = v.ite(was, v.lt(probe(c.off_sensor_fract), c.off_trigger_t_f, exact=True),
                   v.lt(probe(c.on_sensor_fract), c.on_trigger_t_f, exact=True))
        q = q + v.ite(on, w.performance_map.get_capacity_kbtuh(oat, c.outlet_temp_f, inlet), 0.0)
        kws.append((on, w.performance_map.get_power_in_kw(oat, c.outlet_temp_f, inlet)))
        outs.append(c.outlet_temp_f)
    return q, kws, v.mx(*outs) if len(outs) > 1 else outs[0]


def check_power(v, got, kws):
    """Power is that of the running heaters whose power is known, and unknown when none is."""
    known = v.or_(False, *[on for on, kw in kws if kw is not None])
    total = v.sum_([v.ite(on, kw, 0.0) for on, kw in kws if kw is not None])
    if got is None:
        v.check("power is unknown only when no running heater's is known", v.not_(known))
    else:
        v.check("power is that of the running heaters", v.and_(known, v.eq(got, total)))


def check_common(v, r, b, i, dt, h, ls, daily, oat, inlet, mode):
    shape = EVENING if ls else FLATTER
    v.check("demand of the step", v.eq(r["demand_supplyT_gal"], daily * v.num(shape[h]) * dt / 60.0))
    v.check("weather of the step", v.and_(v.eq(r["oat_f"], oat), v.eq(r["inlet_water_temp_f"], inlet)))
    v.check("mode of the step", r["mode"] == mode)


def check_tank(v, r, tank, twin, sup):
    v.check("tank temperatures after the step", v.and_(len(r["tank_temps_f"]) == 6, *[
        v.eq(t, v.call(twin.get_temperature_at_fraction, f)) for t, f in zip(r["tank_temps_f"], FR)]))
    v.check("tank left in that state", v.and_(*[v.eq(v.call(tank.get_temperature_at_fraction, f),
                                                     v.call(twin.get_temperature_at_fraction, f)) for f in FR]))
    v.check("usable volume after the step",
            v.eq(r["usable_volume_supplyT_gal"], v.call(twin.get_usable_volume_supplyT_gal, sup)))


def two(v, ls, acts, kws):
    return [(heater(v, "ab"[k], ls and k == 0, v.real("cap%d" % k, 1, 500), kws[k], acts[k]), acts[k]) for k in (0, 1)]


def mixed(v, name="t0", lo=40, hi=170, vol=None):
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    vol = v.real("vol_" + name, 50, 5000) if vol is None else vol
    t = v.real(name, lo, hi)
    out = []
    for _ in range(2):
        k = v.call(MixedStorageTank, vol)
        v.call(k.initialize, t, 50.0, 1.0)
        out.append(k)
    return out[0], out[1], t, vol


def strat(v, name="s"):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    vol, slope, full = v.real("vol_" + name, 50, 5000), v.real("slope", 0.5, 6), v.real("full", 0, 1)
    cold, hot = v.real("cold", 35, 75), v.real("hot", 125, 170)
    out = []
    for _ in range(2):
        k = v.call(StratifiedTank, vol, slope)
        v.call(k.initialize, hot, cold, full)
        out.append(k)
    return out[0], out[1]


def plain_step(v, kind, tank_of):
    """The heaters decide on the tank as the step finds it, their heat goes in at the hottest outlet temperature, then
    the demand is drawn; everything is reported as it is afterwards."""
    step, ls, acts, kw2, loop = case(v, kind)
    b, inlet, oat, daily, i, dt, h = setting(v, step)
    ws = two(v, ls, acts, kw2)
    ws = ws[:1 if v.symbolic and kind != "plain" else 2 if v.symbolic else v.choice("heaters", [2, 1])]
    tank, twin = tank_of(v)
    sup, sto = v.real("sup", 100, 130), 150.0
    s, tm = system(v, kind, [w for w, _ in ws], tank, sup, sto, loop)
    q, kws, out = run_heaters(v, ws, h, lambda f: v.call(twin.get_temperature_at_fraction, f), oat, inlet)
    r = v.call(s.simulate_step, b, i, dt)
    check_common(v, r, b, i, dt, h, ls, daily, oat, inlet, day(ls)[h])
    v.check("heat of the running heaters", v.eq(r["heater_output_kbtuh"], q))
    check_power(v, r["heater_power_in_kw"], kws)
    v.call(twin.heat, q, dt, out)
    v.call(twin.draw, r["demand_supplyT_gal"], inlet, sup, out)
    if kind == "sprtp":
        v.call(twin.add_recirc_return, s.return_flow_gpm, s.return_temp_f, dt, supply_temp_f=sup)
    check_tank(v, r, tank, twin, sup)
    if kind == "parallel":
        check_loop(v, r, s, tm, h, dt, oat)


def system(v, kind, ws, tank, sup, sto, loop):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from .r01_recirc import classes
    if kind == "plain":
        return v.call(DHWSystem, ws, tank, sup, sto), None
    ret, flow = v.real("ret", 80, 99), v.real("flow", 0, 12)
    if kind != "parallel":
        return v.call(classes()[kind], ws, tank, sup, sto, ret, flow), None
    n = [1, 3][loop[0]]
    s = v.call(classes()[kind], ws, tank, sup, sto, ret, flow, 130.0, 140.0, num_tm_heaters=n)
    return s, give_loop(v, s, 130.0, 140.0, loop, n)


def give_loop(v, s, on, off, loop, n=1):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    tank, twin, t, vol = mixed(v, "tm", 90, 150)
    act, kw = loop[1] == 1, [None, 1.5][loop[2]]
    m = {"normal": controls(v, 0.5, on, 0.5, off, off + 1.0)}
    w = v.call(WaterHeater, Map(v.real("tm_cap", 1, 300), kw), ["normal"] * 24, m)
    if act:
        v.call(w.turn_on)
    s.tm_storage_tank, s.tm_water_heater = tank, w
    return dict(tank=tank, t=t, vol=vol, act=act, w=w, n=n, on=on, off=off, kw=kw)


def check_loop(v, r, s, tm, h, dt, oat):
    """Return water cools the loop tank, then its heaters decide and heat it."""
    v.assume(v.le(s.return_flow_gpm * dt, tm["vol"], exact=True))
    cooled = tm["t"] + s.return_flow_gpm * dt * (s.return_temp_f - tm["t"]) / tm["vol"]
    on = v.ite(tm["act"], v.lt(cooled, tm["off"], exact=True), v.lt(cooled, tm["on"], exact=True))
    mid = (tm["on"] + tm["off"]) / 2.0
    q = v.ite(on, tm["w"].performance_map.get_capacity_kbtuh(oat, cooled, mid) * tm["n"], 0.0)
    v.check("loop heat", v.eq(r["tm_heater_output_kbtuh"], q))
    after = cooled + q * 1000.0 * dt / 60.0 / (tm["vol"] * RHO)
    v.check("loop tank temperature", v.eq(r["tm_tank_temp_f"], after))
    v.check("loop tank left at it", v.eq(v.call(tm["tank"].get_temperature_at_fraction, 0.5), after))
    kw = tm["w"].performance_map.get_power_in_kw(oat, cooled, mid)
    if r["tm_heater_input_kw"] is None:
        v.check("loop power is unknown only when it is", v.or_(kw is None, v.not_(on)))
    else:
        v.check("loop power", kw is not None and v.and_(on, v.eq(r["tm_heater_input_kw"], kw * tm["n"])))


for _k in ("plain", "parallel"):
    harness("M03", "step_mixed_" + _k, max_paths=400000, wall=250, timeout_ms=30000)(
        lambda v, k=_k: plain_step(v, k, lambda v: mixed(v)[:2]))
for _k in ("plain", "parallel", "sprtp"):
    harness("M03", "step_stratified_" + _k, samples=250)(
        lambda v, k=_k: None if v.symbolic else plain_step(v, k, strat))


# ------------------------------------------------------------------ R03
def swing_step(v, kind, tank_of):
    """The swing tank passes the demand on: it takes in as much primary water as carries the demand's heat at its own
    temperature, loses the loop's heat and is topped up by its element; the primary tank gives that volume."""
    step, ls, acts, kw2, loop = case(v, "swing")
    b, inlet, oat, daily, i, dt, h = setting(v, step)
    ws = two(v, ls, acts, kw2)
    if v.symbolic:
        ws = ws[:1]
    tank, twin = tank_of(v)
    sup = v.real("sup", 100, 130)
    s, _ = system(v, kind, [w for w, _ in ws], tank, sup, 150.0, loop)
    tm = give_loop(v, s, sup, sup + 8.0, loop)
    q, kws, out = run_heaters(v, ws, h, lambda f: v.call(twin.get_temperature_at_fraction, f), oat, inlet)
    dem = daily * v.num((EVENING if ls else FLATTER)[h]) * dt / 60.0
    t0, vol = tm["t"], tm["vol"]
    hot = v.lt(sup, t0, exact=True)
    hw = v.ite(hot, dem * (sup - inlet) / (t0 - inlet), dem)
    v.assume(v.lt(hw, vol))
    v.assume(v.le(s.return_flow_gpm * dt * (sup - s.return_temp_f), vol * 40.0, exact=True))
    r = v.call(s.simulate_step, b, i, dt)
    check_common(v, r, b, i, dt, h, ls, daily, oat, inlet, day(ls)[h])
    v.check("heat of the running primary heaters", v.eq(r["heater_output_kbtuh"], q))
    got = r["heater_power_in_kw"]
    if got is not None:
        v.check("power of the running primary heaters", v.eq(got, v.sum_([v.ite(on, kw, 0.0) for on, kw in kws if kw is not None])))
    else:
        v.check("power is unknown only when no running heater's is known",
                v.not_(v.or_(False, *[on for on, kw in kws if kw is not None])))
    v.call(twin.heat, q, dt, out)
    feed = v.call(twin.get_average_draw_temp_f, hw)
    lost = s.return_flow_gpm * 60.0 * RHO * (sup - s.return_temp_f)          # BTU per hour
    before = t0 + hw * (feed - t0) / vol - lost * dt / 60.0 / (vol * RHO)
    on = v.ite(tm["act"], v.lt(before, tm["off"], exact=True), v.lt(before, tm["on"], exact=True))
    qtm = r["tm_heater_output_kbtuh"]
    v.check("the element runs exactly when its thermostat calls",
            v.eq(qtm, v.ite(on, tm["w"].performance_map.get_capacity_kbtuh(oat, before), 0.0)))
    after = v.call(tm["tank"].get_temperature_at_fraction, 0.5)
    v.check("heat balance of the swing tank", v.eq(
        vol * RHO * (after - t0), hw * RHO * (feed - t0) - lost * dt / 60.0 + qtm * 1000.0 * dt / 60.0, tol=1e-6))
    v.check("swing temperature reported", v.eq(r["tm_tank_temp_f"], after))
    v.check("delivered from the swing tank", v.eq(r["delivery_temp_f"], after))
    v.check("the element's power is its heat", v.eq(r["tm_heater_input_kw"] * KBTUH_PER_KW, qtm))
    v.call(twin.draw_physical_gal, hw, inlet, sup)
    v.check("primary temperatures after the step", v.and_(len(r["tank_temps_f"]) == 6, *[
        v.eq(t, v.call(twin.get_temperature_at_fraction, f)) for t, f in zip(r["tank_temps_f"], FR)]))
    v.check("primary tank left in that state", v.and_(*[v.eq(v.call(tank.get_temperature_at_fraction, f),
                                                             v.call(twin.get_temperature_at_fraction, f)) for f in FR]))
    v.check("nothing usable while the swing tank is below supply temperature", v.eq(
        r["usable_volume_supplyT_gal"],
        v.ite(v.lt(t0, sup, exact=True), 0.0, v.call(twin.get_usable_volume_supplyT_gal, sup))))


for _k in ("swing", "swing_er"):
    harness("R03", "step_mixed_" + _k, max_paths=400000, wall=250, timeout_ms=30000)(
        lambda v, k=_k: swing_step(v, k, lambda v: mixed(v)[:2]))
    harness("R03", "step_stratified_" + _k, samples=250)(
        lambda v, k=_k: None if v.symbolic else swing_step(v, k, strat))


# ------------------------------------------------------------------ M03 instantaneous, multi-pass
@harness("M03")
def step_instant(v):
    """An instantaneous heater makes the demand as it is drawn; there is nothing in store."""
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    b, inlet, oat, daily, i, dt, h = setting(v, v.choice("step", STEPS))
    sup, df = v.real("sup", 100, 130), v.real("defrost", 0, 1, lo_open=True, sample=(0.5, 1))
    s = v.call(InstantWHSystem, sup, 140.0, df)
    r = v.call(s.simulate_step, b, i, dt)
    check_common(v, r, b, i, dt, h, False, daily, oat, inlet, "normal")
    q = r["heater_output_kbtuh"]
    v.check("heat of the demand", v.eq(q * df * dt / 60.0 * 1000.0, r["demand_supplyT_gal"] * RHO * (sup - inlet)))
    v.check("power", v.eq(r["heater_power_in_kw"] * KBTUH_PER_KW, q))
    v.check("nothing in store", v.eq(r["usable_volume_supplyT_gal"], 0.0))
    v.check("delivered at supply temperature", v.and_(len(r["tank_temps_f"]) == 6, *[v.eq(t, sup) for t in r["tank_temps_f"]]))


@harness("M03", samples=60)
def steps_multi_pass(v):
    """Bounded: runs of multi-pass return-to-primary steps against the tank's own operations."""
    if v.symbolic:
        return
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    step, ls, acts, kw2, loop = case(v)
    b, inlet, oat, daily, i, dt, h = setting(v, (v.int_("i", 0, 1400), 1))
    sup, sto, ret, flow = 120.0, 140.0, v.real("ret", 105, 119), v.real("flow", 0, 8)
    vol, full, use = v.real("vol", 100, 1500), v.real("full", 0, 1), v.choice("use", [1.0, 0.9])
    cap = v.real("cap", 20, 400)
    m = {n: controls(v, on, 118.0 + k, 0.2, 135.0, 140.0 + k)
         for k, (n, on) in enumerate([("normal", 0.45), ("day", 0.3), ("night", 0.6)])}

    def make(n):
        t = SlugOverlayTank(vol, inlet, sto, sup, use, v.choice("slope", [0.8, 2.0]))
        t.initialize(sto, inlet, full)
        return t, [WaterHeater(Map(cap + j, kw2[j]), day(False), m) for j in range(n)]
    tank, ws = make(2)
    twin, tws = make(2)
    s = v.call(MultiPassRTPSystem, ws, tank, sup, sto, ret, flow)
    probe = twin.get_temperature_at_fraction
    for k in range(i, i + 150):
        h = k // 60 % 24
        was = any(w.is_active() for w in tws)
        for w in tws:
            w.update_state(twin, h)
        now = any(w.is_active() for w in tws)
        if now:
            twin.activate_slug(sup)
        elif was:
            twin.deactivate_slug()
        top = probe(1.0)
        q = sum(w.get_output_kbtuh(oat, w.get_outlet_temp_f(h)) for w in tws)
        kws = [(w.is_active(), w.get_power_in_kw(oat, w.get_outlet_temp_f(h))) for w in tws]
        dem = daily * FLATTER[h] / 60.0
        mv = mixing_valve_behavior(dem, flow, inlet, sup, ret, top)
        if now:
            twin.heat_slug(q, 1)
        if mv["storage_draw_gal"] > 0:
            twin.draw_physical_gal(mv["storage_draw_gal"], mv["inlet_temp_f"], update_internal_cold_temp=False)
        r = v.call(s.simulate_step, b, k, 1)
        check_common(v, r, b, k, 1, h, False, daily, oat, inlet, day(False)[h])
        v.check("heat of the running heaters", v.eq(r["heater_output_kbtuh"], q))
        check_power(v, r["heater_power_in_kw"], kws)
        check_tank(v, r, tank, twin, sup)
        v.check("delivery", v.eq(r["delivery_temp_f"], sup if now else top))

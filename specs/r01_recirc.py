"""R01 recirculation loss and parallel-loop sizing; R02 swing tank sizing; R05 mixing valve."""
from vengine.harness import harness
from . import RHO, KBTUH_PER_KW
from .s01_sizing import controls

SWING = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
SWING_CA = [80, 96, 168, 288, 480]


def classes():
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    return {"parallel": ParallelLoopSystem, "swing": SwingSystem, "swing_er": SwingERTrdOffSystem,
            "sprtp": SinglePassRTPSystem, "mprtp": MultiPassRTPSystem}


def loop(v):
    sup = v.real("sup", 90, 140)
    ret = v.real("ret", 70, 139)
    flow = v.real("flow", 0, sample=(0, 15))
    v.assume(v.le(ret, sup, exact=True))
    return sup, ret, flow


def unsized(v, kind, sup, sto, ret, flow, **kw):
    if kind == "parallel":
        kw = {"tm_on_temp_f": 130.0, "tm_off_temp_f": 140.0, **kw}
    return v.call(classes()[kind], [], None, sup, sto, ret, flow, **kw)


# ------------------------------------------------------------------ R01
@harness("R01")
def loss(v):
    """The loop loses the heat of its flow between supply and return temperature, in every plant."""
    sup, ret, flow = loop(v)
    kind = v.choice("kind", list(classes()))
    s = unsized(v, kind, sup, sup + 20.0, ret, flow)
    want = flow * 60.0 * RHO * (sup - ret) / 1000.0
    v.check("loss per hour", v.eq(v.call(s.get_recirc_loss_kbtuh), want))
    if kind in ("parallel", "swing", "swing_er"):
        v.check("loss per day", v.eq(v.call(s.get_daily_recirc_loss_kbtu), 24.0 * want))


def flat_building(v, daily=480.0, inlet=50.0, oat=30.0):
    from ecoengine.objects.building.Building import Building
    shape = [1.0 / 48] * 12 + [3.0 / 48] * 12
    return v.call(Building, None, daily, shape, shape, design_inlet_water_temp_f=inlet, design_oat_f=oat)


@harness("R01")
def parallel_sizing(v):
    """The loop tank rides through its off time within its dead band, and its heater outpaces the loss by the safety
    factor; settings that cannot cycle are refused."""
    sup, ret, flow = loop(v)
    on = v.real("on", 90, 150)
    off = v.real("off", 90, 160)
    hrs = v.real("off_time", -0.5, 1.5)
    sf = v.real("safety", 0.5, 4)
    s = unsized(v, "parallel", sup, 152.0, ret, flow, tm_on_temp_f=on, tm_off_temp_f=off, tm_off_time_hr=hrs,
                tm_safety_factor=sf)
    o = v.outcome(s.size, flat_building(v))
    ok = v.and_(v.lt(1, sf), v.lt(0, hrs), v.le(hrs, 1), v.lt(on, off), v.lt(sf - 1.0 + 1e-6, 3.0 * hrs))
    bad = v.or_(v.le(sf, 1), v.le(hrs, 0), v.lt(1, hrs), v.le(off, on), v.le(3.0 * hrs + 1e-6, sf - 1.0))
    if o.raised is not None:
        v.check("settings that can cycle are accepted", v.not_(ok))
        v.check("refusal is a value error", o.raised is ValueError)
        v.check("no loop sizing after a refusal", v.outcome(s.get_minimum_tm_volume_gal).raised is RuntimeError)
        return
    v.check("settings that cannot cycle are refused", v.not_(bad))
    lost = flow * 60.0 * RHO * (sup - ret)
    vol, cap = v.call(s.get_minimum_tm_volume_gal), v.call(s.get_minimum_tm_capacity_kbtuh)
    v.check("tank heat between off and on temperature lasts the off time",
            v.eq(vol * RHO * (off - on), lost * hrs))
    v.check("heater covers the loss with the safety factor", v.eq(cap * 1000.0, sf * lost))


@harness("R01", timeout_ms=30000)
def parallel_components(v):
    """Sizing a parallel loop builds a loop tank and heaters of the sized volume and capacity."""
    sup, ret, flow = loop(v)
    n = v.choice("n", [1, 2, 3])
    sf = v.real("safety", 1, 2, lo_open=True)
    hrs = v.real("off_time", 0, 1, lo_open=True)
    v.assume(v.lt((sf - 1.0) / 3.0, hrs))
    v.assume(v.and_(v.lt(0, flow), v.lt(ret, sup)))
    m = {"normal": controls(v, 0.4, 110.0, 0.1, 145.0, 150.0)}
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem as P
    s = v.call(P.from_size, flat_building(v), sup, 152.0, ret, flow, 130.0, 140.0, tm_off_time_hr=hrs,
               tm_safety_factor=sf, num_tm_heaters=n, control_schedule=["normal"] * 24, control_map=m)
    lost = flow * 60.0 * RHO * (sup - ret)
    v.check("loop tank", v.eq(s.tm_storage_tank.total_volume_gal * RHO * 10.0, lost * hrs))
    each = v.call(s.tm_water_heater.performance_map.get_capacity_kbtuh, 30.0, 140.0, 130.0)
    v.check("loop heaters together", v.eq(each * n * 1000.0, sf * lost))
    c = v.call(s.tm_water_heater.get_controls_for_hour, v.choice("h", [0, 11, 23]))
    v.check("loop heater thermostat", v.and_(v.eq(c.on_trigger_t_f, 130.0), v.eq(c.off_trigger_t_f, 140.0),
                                             v.eq(c.on_sensor_fract, c.off_sensor_fract)))
    v.check("primary tank", v.eq(s.storage_tank.total_volume_gal, v.call(s.get_minimum_storage_storageT_gal)))
    v.check("primary heaters", len(s.water_heaters) == 1 and v.eq(
        v.call(s.water_heaters[0].performance_map.get_capacity_kbtuh, 30.0, 140.0, 50.0),
        v.call(s.get_minimum_capacity_kbtuh)))


# ------------------------------------------------------------------ R02
def needed_volume(v, sup, ret, flow, daily):
    lost = flow * 60.0 * RHO * (sup - ret)
    return v.mx(lost / (100.0 * KBTUH_PER_KW), daily * (3.0 / 48) / 60.0), lost


@harness("R02", timeout_ms=30000, samples=40)
def swing_table(v):
    """The swing tank is the smallest listed tank that covers the loss at 100 W per gallon and holds more than a
    minute's peak draw; its element covers the loss with the safety factor.  Proved on the tank-sizing step."""
    sup, ret, flow = loop(v)
    sf = v.real("safety", 1, 3, lo_open=True)
    daily = v.real("daily", 0, lo_open=True, sample=(50, 40000))
    s = unsized(v, "swing", sup, 152.0, ret, flow, tm_safety_factor=sf)
    b = flat_building(v, daily)
    need, lost = needed_volume(v, sup, ret, flow, daily)
    o = v.outcome(s._size_tm_system, b)
    if o.raised is not None:
        v.check("a tank that would do is not refused", v.lt(1250.0, need))
        v.check("refusal is a value error", o.raised is ValueError)
        return
    v.check("no listed tank would do", v.le(need, 1250.0))
    vol, ca = v.call(s.get_minimum_tm_volume_gal), v.call(s.get_minimum_tm_ca_volume_gal)
    listed(v, "", SWING, vol, need)
    v.check("Californian tank is listed", v.or_(*[v.eq(ca, x) for x in SWING_CA]))
    v.check("Californian tank covers the need, up to the largest", v.or_(v.le(need, ca), v.eq(ca, 480.0)))
    for x in SWING_CA:
        v.check("no smaller Californian tank would do", v.or_(v.le(ca, x), v.lt(x, need)))
    v.check("element covers the loss with the safety factor",
            v.eq(v.call(s.get_minimum_tm_capacity_kbtuh) * 1000.0, sf * lost))


def listed(v, pre, table, vol, need):
    v.check(pre + "tank is listed", v.or_(*[v.eq(vol, x) for x in table]))
    v.check(pre + "tank covers the need", v.le(need, vol))
    for x in table:
        v.check(pre + "no smaller tank would do", v.or_(v.le(vol, x), v.lt(x, need)))


@harness("R02", samples=40)
def swing_sized(v):
    """Bounded: the same on whole sizings, with settings that are refused among them."""
    if v.symbolic:
        return
    sup, ret, flow = 120.0, v.real("ret", 105, 119), v.real("flow", 0.1, 40)
    sf = v.real("safety", 0.8, 2)
    daily = v.real("daily", 10, 20000)
    kind = v.choice("kind", ["swing", "swing_er"])
    o = v.outcome(classes()[kind], [], None, sup, 150.0, ret, flow, tm_safety_factor=sf)
    if sf <= 1.0:
        v.check("a safety factor of one or less is refused", o.raised is ValueError)
        return
    s = o.value
    need, lost = needed_volume(v, sup, ret, flow, daily)
    o = v.outcome(s.size, flat_building(v, daily), control_schedule=["normal"] * 24,
                  control_map={"normal": controls(v, 0.4, 120.0, 0.1, 150.0, 150.0)})
    if o.raised is not None:
        v.check("refusal is a value error", o.raised is ValueError)
        return
    v.check("no listed tank would do", need <= 1250.0)
    listed(v, "sized ", SWING, s.get_minimum_tm_volume_gal(), need)
    er = s.get_er_capacity_kbtuh() if kind == "swing_er" else 0.0
    v.check("element covers the loss with the safety factor",
            v.eq((s.get_minimum_tm_capacity_kbtuh() - er) * 1000.0, sf * lost))
    v.check("extra resistance is never negative", er >= 0.0)


# ------------------------------------------------------------------ R05
@harness("R05", timeout_ms=60000)
def mixing_valve(v):
    """Load and loop are served at supply temperature with exactly the heat taken from the tank: what leaves the tank
    enters it again as cold or return water, and the valve's flows balance in volume and heat."""
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior as f
    load, flow = v.real("load", 0, sample=(0, 30)), v.real("flow", 0, sample=(0, 30))
    cold = v.real("cold", 32, 80)
    ret = v.real("ret", 81, 130)
    sup = v.real("sup", 90, 140)
    sto = v.real("sto", 90, 200)
    v.assume(v.and_(v.lt(ret, sup, exact=True), v.le(sup, sto, exact=True)))
    zero = v.choice("zero", ["", "load", "flow", "both", "at supply"])
    if zero in ("load", "both"):
        load = v.num(0.0)
    if zero in ("flow", "both"):
        flow = v.num(0.0)
    if zero == "at supply":
        v.assume(v.eq(sup, sto, tol=0))
        sto = sup
    r = v.call(f, load, flow, cold, sup, ret, sto)
    draw, t_in = r["storage_draw_gal"], r["inlet_temp_f"]
    v.check("draw is never negative", v.le(0.0, draw))
    v.check("draw is at most what is served", v.le(draw, load + flow))
    v.check("heat taken from the tank serves load and loop",
            v.eq(draw * (sto - t_in), load * (sup - cold) + flow * (sup - ret)))
    v.check("inlet lies between cold and return", v.and_(v.le(cold, t_in), v.le(t_in, ret)))
    # the tank takes back exactly what it gave: cold water for the load first, return water for the rest
    back = v.mx(0.0, draw - load)
    v.check("return water enters the tank only beyond the load", v.eq(draw * (t_in - cold), back * (ret - cold)))

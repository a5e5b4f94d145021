"""S05: sizing is free of side effects; S06: sizing curves agree with sizing."""
from vengine.harness import harness
from . import RHO
from .s01_sizing import TYPES, SCHEDULES, controls, plant, building, FLATTER, EVENING

LIGHT = ["plain", "parallel", "sprtp"]
HEAVY = ["swing", "swing_er", "mprtp"]


def make(v, kind, run=16.0, storage=150.0, defrost=1.0):
    """An unsized system of each kind."""
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    if kind == "plain":
        return v.call(DHWSystem, [], None, 120.0, storage, run, defrost)
    if kind == "instant":
        return v.call(InstantWHSystem, 120.0, storage, defrost)
    if kind == "parallel":
        return v.call(ParallelLoopSystem, [], None, 120.0, storage, 112.0, 3.0, 130.0, 140.0, max_daily_run_hr=run,
                      defrost_factor=defrost)
    cls = {"swing": SwingSystem, "swing_er": SwingERTrdOffSystem, "sprtp": SinglePassRTPSystem,
           "mprtp": MultiPassRTPSystem}[kind]
    return v.call(cls, [], None, 120.0, storage, 112.0, 3.0, max_daily_run_hr=run, defrost_factor=defrost)


def public(o):
    return {k: x for k, x in o.__dict__.items() if not k.startswith("_")}


def shape_copy(b):
    return {"daily": b.daily_dhw_use_supplyT_gal, "peak": list(b.peak_load_shape), "avg": list(b.avg_load_shape)}


def unchanged(v, label, s, s0, b, b0, annual):
    v.check(label + ": system settings", v.and_(*[v.same(public(s).get(k), x) for k, x in s0.items()],
                                                set(public(s)) == set(s0)))
    now = shape_copy(b)
    v.check(label + ": daily use", v.eq(now["daily"], b0["daily"]))
    v.check(label + ": load shape in force", v.iff(v.call(b.is_annual_load_shape), annual))
    v.check(label + ": load shapes", v.and_(len(now["peak"]) == len(b0["peak"]), v.same(now["peak"][:48], b0["peak"][:48]),
                                            v.same(now["avg"][-48:], b0["avg"][-48:])))


def mf(v, annual, inlet=50.0):
    from ecoengine.objects.building.Building import Building
    mag = v.real("mag", 5, 400, sample=(20, 300))
    return v.call(Building.from_building_type, "multi_family", mag, None, annual=annual,
                  design_inlet_water_temp_f=inlet, design_oat_f=30.0)


def ctrl_map(v, ls):
    m = {"normal": controls(v, 0.4, 120.0, 0.1, 150.0, 150.0)}
    if ls:
        m["shed"] = controls(v, 0.7, 120.0, 0.3, 150.0, 150.0)
        m["loadUp"] = controls(v, 0.3, 120.0, 0.0, 150.0, 150.0)
    return m


def size_frame(v, kinds):
    kind = v.choice("kind", kinds)
    annual = v.choice("annual", [False, True])
    ls = v.choice("ls", [False, True]) if kind != "mprtp" else False
    b = mf(v, annual)
    s = make(v, kind)
    m = ctrl_map(v, ls)
    sched = list(SCHEDULES[0]) if ls else ["normal"] * 24
    s0, b0, m0, sch0 = public(s), shape_copy(b), dict(m), list(sched)
    c0 = {k: v.snap(c) for k, c in m.items()}
    v.call(s.size, b, control_schedule=sched, control_map=m)
    unchanged(v, "after sizing", s, s0, b, b0, annual)
    v.check("after sizing: controls", list(m) == list(m0) and all(m[k] is m0[k] for k in m) and sched == sch0)
    v.check("after sizing: control settings", v.and_(*[v.same_obj(m[k], c0[k]) for k in m]))
    first = [v.call(s.get_minimum_capacity_kbtuh), v.call(s.get_minimum_storage_storageT_gal)]
    v.call(s.size, b, control_schedule=sched, control_map=m)
    again = [v.call(s.get_minimum_capacity_kbtuh), v.call(s.get_minimum_storage_storageT_gal)]
    v.check("sizing again gives the same", v.same(first, again))


@harness("S05", wall=200, max_paths=100000, samples=40)
def size_keeps_inputs(v):
    """Sizing changes neither the building nor the settings of the system."""
    size_frame(v, LIGHT)


@harness("S05", samples=8)
def size_keeps_inputs_heavy(v):
    """Bounded: the same for the systems sized by minute simulation."""
    if not v.symbolic:
        size_frame(v, HEAVY)


def failed_frame(v, kinds):
    """A sizing that fails leaves everything as it was."""
    from ecoengine.objects.building.Building import Building
    kind = v.choice("kind", kinds)
    annual = v.choice("annual", [False, True])
    why = v.choice("why", ["no inlet", "no hot water above the sensor", "no normal mode", "no normal mode, no load-up"])
    if kind == "mprtp" and why.startswith("no normal"):
        return                                      # multi-pass plants do not look at the modes
    mag = v.real("mag", 5, 400, sample=(20, 300))
    b = v.call(Building.from_building_type, "multi_family", mag, None, annual=annual,
               design_oat_f=30.0, **({} if why == "no inlet" else {"design_inlet_water_temp_f": 50.0}))
    s = make(v, kind)
    on = 1.0 if why != "no inlet" else 0.4
    m, sched = {"normal": controls(v, on, 120.0, 0.1, 150.0, 150.0)}, ["normal"] * 24
    if why.startswith("no normal"):
        m = ctrl_map(v, True)
        del m["normal"]
        sched = list(SCHEDULES[0])
        if why.endswith("load-up"):
            del m["loadUp"]
            sched = ["shed" if h == "shed" else "normal" for h in sched]
    s0, b0 = public(s), shape_copy(b)
    o = v.outcome(s.size, b, control_schedule=sched, control_map=m)
    if kind != "mprtp" or why == "no inlet":        # multi-pass plants can be sized with the sensor at the top
        v.check("refused", o.raised is not None)
    unchanged(v, "after a failed sizing", s, s0, b, b0, annual)


@harness("S05", wall=200, max_paths=100000, samples=40)
def failure_keeps_inputs(v):
    failed_frame(v, LIGHT)


@harness("S05", samples=12)
def failure_keeps_inputs_heavy(v):
    if not v.symbolic:
        failed_frame(v, HEAVY)


def sized(v, kind, b, ls, run=16.0, slope=2.8):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    m = ctrl_map(v, ls)
    sched = list(SCHEDULES[0]) if ls else ["normal"] * 24
    s = make(v, kind, run)
    v.call(s.size, b, control_schedule=sched, control_map=m, strat_slope=slope)
    s.water_heaters = [v.call(WaterHeater.from_nominal_capacity, 100.0, sched, m)]
    return s, m, sched


def failed_curve(v, kinds):
    """A curve that cannot be computed leaves everything as it was."""
    from ecoengine.objects.building.Building import Building
    kind = v.choice("kind", kinds)
    annual = v.choice("annual", [False, True])
    why = v.choice("why", ["no inlet", "no normal mode", "no shed mode"])
    mag = v.real("mag", 5, 400, sample=(20, 300))
    b = v.call(Building.from_building_type, "multi_family", mag, None, annual=annual,
               design_oat_f=30.0, **({} if why == "no inlet" else {"design_inlet_water_temp_f": 50.0}))
    s = make(v, kind)
    m = ctrl_map(v, True)
    if why == "no normal mode":
        del m["normal"]
    if why == "no shed mode":
        del m["shed"]
    s0, b0 = public(s), shape_copy(b)
    if why == "no inlet" and kind != "swing_er":
        o = v.outcome(s.get_sizing_curve, b)
        v.check("curve refused", o.raised is not None)
        unchanged(v, "after a failed curve", s, s0, b, b0, annual)
    o = v.outcome(s.get_ls_sizing_curve, b, list(SCHEDULES[0]), m)
    v.check("load shift curve refused", o.raised is not None)
    unchanged(v, "after a failed load shift curve", s, s0, b, b0, annual)


@harness("S05", wall=200, max_paths=100000, samples=40)
def failed_curves(v):
    failed_curve(v, LIGHT)


@harness("S05", samples=12)
def failed_curves_heavy(v):
    if not v.symbolic:
        failed_curve(v, ["swing", "swing_er"])


@harness("S05", samples=8)
def curves_keep_inputs(v):
    """Bounded: sizing curves leave building, settings and sizing results as they were, and repeat."""
    if v.symbolic:
        return
    kind = v.choice("kind", ["plain", "parallel", "sprtp", "swing", "swing_er"])
    annual = v.choice("annual", [False, True])
    ls = v.choice("ls", [False, True])
    b = mf(v, annual)
    s, m, sched = sized(v, kind, b, ls)
    s0, b0 = public(s), shape_copy(b)
    res = [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]
    c1 = v.call(s.get_sizing_curve, b, step=2.0)
    l1 = v.call(s.get_ls_sizing_curve, b, sched, m) if ls else None
    unchanged(v, "after a sizing curve", s, s0, b, b0, annual)
    c2 = v.call(s.get_sizing_curve, b, step=2.0)
    l2 = v.call(s.get_ls_sizing_curve, b, sched, m) if ls else None
    v.check("the sizing curve repeats", v.same(c1, c2))
    v.check("the load-shift curve repeats", v.same(l1, l2))
    v.check("sizing results kept", v.same(res, [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]))


@harness("S05", samples=6)
def er_points_keep_inputs(v):
    """Bounded: resistance coverage points leave everything as it was, also when one of them fails."""
    if v.symbolic:
        return
    annual = v.choice("annual", [False, True])
    b = mf(v, annual)
    s, m, sched = sized(v, "swing_er", b, False)
    s0, b0 = public(s), shape_copy(b)
    tm = [s.get_minimum_tm_capacity_kbtuh(), s.get_er_capacity_kbtuh()]
    o = v.outcome(s.get_er_sized_points, b, v.choice("extra", [1.0, 1.5]))
    unchanged(v, "after coverage points", s, s0, b, b0, annual)
    v.check("resistance sizing kept", v.same(tm, [s.get_minimum_tm_capacity_kbtuh(), s.get_er_capacity_kbtuh()]))

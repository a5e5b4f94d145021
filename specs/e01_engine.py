"""E01 the engine builds the plant its parameters describe; E02 the engine's answers are those of its parts."""
from vengine.harness import harness
from . import RHO, KBTUH_PER_KW

ALIASES = {"primary_no_recirc": "plain", "singlepass_norecirc": "plain", "parallel_loop": "parallel",
           "paralleltank": "parallel", "swing_tank": "swing", "swingtank": "swing", "single_pass_rtp": "sprtp",
           "sprtp": "sprtp", "multi_pass_rtp": "mprtp", "mprtp": "mprtp", "instant_wh": "instant"}
DEADBAND = 8.0


def klass(kind):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from .r01_recirc import classes
    return {"plain": DHWSystem, "instant": InstantWHSystem, **classes()}[kind]


def engine(v, schematic, mag, sup, sto, place=None, **kw):
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    place = {"design_oat_f": 30.0, "design_inlet_water_temp_f": 50.0} if place is None else place
    return v.call(EcosizerEngine, "multi_family", mag, place, sup, sto, schematic, gpdpp=25.0, **kw)


# ------------------------------------------------------------------ schedules and controls
def runs(sheds):
    return [0 if any(a <= h < b for a, b in sheds) else 1 for h in range(24)]


LAYOUTS = [None, [], runs([]), runs([(16, 21)]), runs([(0, 4)]), runs([(20, 24)]), runs([(7, 10), (17, 20)]),
           runs([(0, 24)]), runs([(1, 2)]), runs([(23, 24)]), [1, 0] * 12]
LOADUPS = [0, 1, 3, 8]
# which of the optional settings are given: on, off trigger; shed on, off sensor; load-up on, off sensor, off trigger
GIVEN = [(0, 0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1, 1), (0, 1, 1, 0, 1, 0, 0), (1, 0, 0, 1, 0, 1, 1), (0, 0, 1, 1, 0, 0, 1)]
CASES = [(LAYOUTS[k % 11], LOADUPS[(k // 3 + k) % 4], GIVEN[(k // 2 + k) % 5]) for k in range(44)]


def want_schedule(layout, up):
    if not layout or 0 not in layout:
        return ["normal"] * 24
    first = layout.index(0)
    return ["shed" if layout[h] == 0 else "loadUp" if first - up <= h < first else "normal" for h in range(24)]


@harness("E01", max_paths=100000)
def control_modes(v):
    """Heaters get the modes of the schedule and, for each, the settings given or their defaults."""
    if v.symbolic:
        layout, up, given = v.choice("case", CASES)
    else:
        layout, up, given = v.choice("layout", LAYOUTS), v.choice("up", LOADUPS), v.choice("given", GIVEN)
    sup, sto = v.real("sup", 100, 140), v.real("sto", 140, 180)
    on, off = v.real("on", 0, 1), v.real("off", 0, 1)
    opt = {}
    names = ["on_trigger_t_f", "off_trigger_t_f", "shed_aquastat_fract", "shed_off_sensor_fract",
             "load_up_aquastat_fract", "load_up_off_sensor_fract", "load_up_off_trigger_t_f"]
    for n, g in zip(names, given):
        if g:
            opt[n] = v.real(n, 90, 180) if n.endswith("_t_f") else v.real(n, 0, 1)
    e = engine(v, "primary_no_recirc", 100.0, sup, sto, aquastat_fract=on, off_sensor_fract=off,
               load_shift_schedule=None if layout is None else list(layout), load_up_hours=up,
               storage_volume_storageT_gal=500.0, heating_capacity_kbtuh=100.0, **opt)
    w = e._dhw_system.water_heaters[0]
    sched = want_schedule(layout, up)
    v.check("modes of the day", list(w.control_schedule) == sched)
    on_t, off_t = opt.get("on_trigger_t_f", sup), opt.get("off_trigger_t_f", sto)
    want = {"normal": (on, off, off_t),
            "shed": (opt.get("shed_aquastat_fract", on), opt.get("shed_off_sensor_fract", off), off_t),
            "loadUp": (opt.get("load_up_aquastat_fract", on), opt.get("load_up_off_sensor_fract", off),
                       opt.get("load_up_off_trigger_t_f", off_t))}
    for mode in ["normal"] + sorted(set(sched) - {"normal"}):
        v.check("every mode scheduled has controls", mode in w.control_map)
        c = w.control_map[mode]
        a, b, t = want[mode]
        v.check("settings in " + mode, v.and_(v.eq(c.on_sensor_fract, a), v.eq(c.off_sensor_fract, b), v.eq(c.off_trigger_t_f, t),
                                              v.eq(c.on_trigger_t_f, on_t), v.eq(c.outlet_temp_f, sto)))


# ------------------------------------------------------------------ sized plants
def sized_direct(v, kind, e, sup, sto, run, df, ret, flow, tm, sched, cmap, share):
    """The plant of that kind sized directly for the same building and settings."""
    b = e._building
    cls = klass(kind)
    if kind == "instant":
        return v.call(cls.from_size, b, sup, sto, defrost_factor=df)
    kw = dict(max_daily_run_hr=14 if kind == "mprtp" else run, defrost_factor=df, control_schedule=list(sched), control_map=cmap)
    if kind != "mprtp":
        kw["load_shift_fract_total_vol"] = share
    if kind == "plain":
        return v.call(cls.from_size, b, sup, sto, **kw)
    if kind == "parallel":
        return v.call(cls.from_size, b, sup, sto, ret, flow, tm["on"], tm["off"], tm_off_time_hr=tm["hr"],
                      tm_safety_factor=tm["sf"], **kw)
    if kind == "swing":
        return v.call(cls.from_size, b, sup, sto, ret, flow, tm_safety_factor=tm["sf"], **kw)
    return v.call(cls.from_size, b, sup, sto, ret, flow, **kw)


def sized(v, kinds, natively=False):
    from ecoengine.objects.dhwsystems.DHWSystem import _load_shift_fract_total_vol
    schematic = v.choice("schematic", [a for a, k in ALIASES.items() if k in kinds])
    kind = ALIASES[schematic]
    mag = v.real("mag", 5, 400, sample=(20, 200))
    if v.symbolic:      # the size of the building and of the loop are symbolic, the settings listed
        sup, sto, run, df = v.choice("set", [(120.0, 150.0, 16.0, 1.0), (125.0, 140.0, 20.0, 0.75)])
    else:
        sup, sto = v.real("sup", 110, 130), v.real("sto", 140, 160)
        run, df = v.real("run", 12, 24), v.real("df", 0.8, 1)
    ls = v.choice("ls", [0, 1]) if kind != "mprtp" else 0
    share = 0.95
    kw = {"max_daily_run_hr": run, "defrost_factor": df, "aquastat_fract": 0.4, "off_sensor_fract": 0.125}
    layout, up = None, 0
    if not ls and v.choice("listed", [False, True]):
        kw["load_shift_schedule"] = runs([])
    if ls:
        layout, up = runs([(17, 20)]), 2
        kw.update(load_shift_schedule=list(layout), load_up_hours=up, shed_aquastat_fract=0.75, load_up_aquastat_fract=0.25)
        share = v.choice("share", [0.95, 0.6])
        kw["load_shift_percent"] = share
    ret = flow = None
    tm = None
    if kind not in ("plain", "instant"):
        ret, flow = v.real("ret", 90, 109), v.real("flow", 0.5, 12, sample=(1, 5))
        kw.update(return_temp_f=ret, return_flow_gpm=flow)
    n = 1
    if kind in ("parallel", "swing"):
        tm = {"on": sup, "off": sup + 8.0, "hr": 0.5, "sf": v.real("sf", 1.1, 2.4)}
        kw["tm_safety_factor"] = tm["sf"]
        if kind == "parallel":
            if v.choice("own_tm", [0, 1]):
                tm.update(on=132.0, off=v.real("tm_off", 139, 150), hr=v.choice("tm_hr", [0.5, 0.75]))
                kw.update(tm_on_temp_f=tm["on"], tm_off_temp_f=tm["off"], tm_off_time_hr=tm["hr"])
            n = v.choice("n_tm", [1, 3])
            kw["num_tm_heaters"] = n
    e = engine(v, schematic, mag, sup, sto, **kw)
    s = e._dhw_system
    v.check("kind of plant", type(s) is klass(kind))
    v.check("daily use of the building", v.eq(v.call(e.get_hw_magnitude), mag * 25.0))
    cmap = {"normal": _ctrl(v, 0.4, sup, 0.125, sto), "shed": _ctrl(v, 0.75, sup, 0.125, sto),
            "loadUp": _ctrl(v, 0.25, sup, 0.125, sto)}
    if not ls:
        cmap = {"normal": cmap["normal"]}
    d = sized_direct(v, kind, e, sup, sto, run, df, ret, flow, tm, want_schedule(layout, up), cmap,
                     v.call(_load_shift_fract_total_vol, share) if ls else 1.0)
    r = v.call(e.get_sizing_results)
    v.check("capacity of the plant sized directly", v.eq(r["min_capacity_kbtuh"], v.call(d.get_minimum_capacity_kbtuh)))
    v.check("storage of the plant sized directly",
            v.eq(r["min_storage_storageT_gal"], v.call(d.get_minimum_storage_storageT_gal)))
    if kind in ("parallel", "swing"):
        v.check("loop tank of the plant sized directly", v.eq(r["min_tm_volume_gal"], d.tm_storage_tank.total_volume_gal))
        v.check("loop heat of the plant sized directly", v.eq(r["min_tm_capacity_kbtuh"], nominal(v, d.tm_water_heater)))
        v.check("loop heaters together give it", v.eq(nominal(v, s.tm_water_heater) * n, r["min_tm_capacity_kbtuh"]))
    else:
        v.check("no loop tank reported", "min_tm_volume_gal" not in r)
    same_settings(v, s, d)
    if kind == "parallel":
        v.check("number of loop heaters", s.num_tm_heaters == n)


def _ctrl(v, on, on_t, off, off_t):
    from .s01_sizing import controls
    return controls(v, on, on_t, off, off_t, off_t)


def same_settings(v, s, d):
    for k in ("supply_temp_f", "storage_temp_f", "max_daily_run_hr", "defrost_factor", "return_temp_f", "return_flow_gpm",
              "tm_on_temp_f", "tm_off_temp_f", "tm_off_time_hr", "tm_safety_factor"):
        if hasattr(d, k):
            v.check("setting " + k, v.eq(getattr(s, k), getattr(d, k)))


harness("E01", "sized_plants", max_paths=200000, samples=80)(lambda v: sized(v, ("plain", "parallel", "sprtp", "instant")))
harness("E01", "sized_minute_plants", samples=12)(
    lambda v: None if v.symbolic else sized(v, ("swing", "mprtp")))


# ------------------------------------------------------------------ pre-sized plants
def nominal(v, w):
    """What a nominal heater delivers when on."""
    v.call(w.turn_on)
    q = v.call(w.get_output_kbtuh, 40.0, 140.0)
    v.call(w.turn_off)
    return q


@harness("E01", max_paths=200000)
def presized_plants(v):
    """A plant given its size has tanks and heaters of exactly that size."""
    schematic = v.choice("schematic", list(ALIASES))
    kind = ALIASES[schematic]
    sup, sto = v.real("sup", 110, 130), v.real("sto", 140, 160)
    vol, cap, n = v.real("vol", 10, 5000), v.real("cap", 10, 500), v.choice("n", [1, 2, 5])
    run, df = v.real("run", 8, 24), v.real("df", 0.5, 1)
    kw = dict(storage_volume_storageT_gal=vol, heating_capacity_kbtuh=cap, num_heaters=n, max_daily_run_hr=run, defrost_factor=df)
    ret, flow, tvol, tcap, tn = v.real("ret", 90, 109), v.real("flow", 0, 12), v.real("tvol", 10, 500), v.real("tcap", 1, 200), v.choice("tn", [1, 3])
    sf = v.real("sf", 1.1, 3)
    if kind not in ("plain", "instant"):
        kw.update(return_temp_f=ret, return_flow_gpm=flow)
    own = None
    if kind in ("parallel", "swing"):
        kw.update(tm_storage_vol=tvol, tm_capacity_kbtuh=tcap, num_tm_heaters=tn, tm_safety_factor=sf)
        if kind == "parallel":
            own = v.choice("own_tm", [0, 1])
            if own:
                kw.update(tm_on_temp_f=131.0, tm_off_temp_f=141.0, tm_off_time_hr=0.75)
    e = engine(v, schematic, 50.0, sup, sto, **kw)
    s = e._dhw_system
    v.check("kind of plant", type(s) is klass(kind))
    v.check("temperatures", v.and_(v.eq(s.supply_temp_f, sup), v.eq(s.storage_temp_f, sto)))
    v.check("defrost factor", v.eq(s.defrost_factor, df))
    if kind != "instant":
        v.check("run hours", v.eq(s.max_daily_run_hr, 14.0 if kind == "mprtp" else run))
        v.check("storage volume", v.eq(s.storage_tank.total_volume_gal, vol))
    v.check("one heater per unit", len(s.water_heaters) == n)
    v.check("no two heaters are one", len(set(id(w) for w in s.water_heaters)) == n)
    qs = [nominal(v, w) for w in s.water_heaters]
    v.check("capacity shared equally", v.and_(*[v.eq(q * n, cap) for q in qs]))
    if kind not in ("plain", "instant"):
        v.check("loop", v.and_(v.eq(s.return_temp_f, ret), v.eq(s.return_flow_gpm, flow)))
    if kind in ("parallel", "swing"):
        units = tn if kind == "parallel" else 1
        v.check("loop tank volume", v.eq(s.tm_storage_tank.total_volume_gal, tvol))
        v.check("loop heaters together", v.eq(nominal(v, s.tm_water_heater) * units, tcap))
        c = s.tm_water_heater.control_map["normal"]
        v.check("the loop heater is always in force", set(s.tm_water_heater.control_schedule) == {"normal"})
        on, off = (131.0, 141.0) if own else (sup, sup + 8.0)
        v.check("loop thermostat", v.and_(v.eq(c.on_trigger_t_f, on), v.eq(c.off_trigger_t_f, off)))
        if kind == "parallel":
            v.check("loop heater count", s.num_tm_heaters == tn)
    r = v.call(e.get_sizing_results)
    v.check("nothing was sized", r["min_capacity_kbtuh"] is None and r["min_storage_storageT_gal"] is None)


@harness("E01", max_paths=100000)
def refusals(v):
    """Unknown schematics and plants without the loop or loop tank they need are refused."""
    schematic = v.choice("schematic", list(ALIASES) + ["swing", "", "primary", "PARALLEL_LOOP", "multi_pass"])
    kind = ALIASES.get(schematic)
    pre = v.choice("pre", [False, True])
    have = v.choice("have", [(a, b, c, d) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1, 2)])
    kw = {}
    if pre:
        kw.update(storage_volume_storageT_gal=400.0, heating_capacity_kbtuh=120.0)
    elif kind in ("swing", "mprtp") and v.symbolic and have[0] and have[1]:
        return
    for g, (k, x) in zip(have, [("return_temp_f", 105.0), ("return_flow_gpm", 2.0), ("tm_storage_vol", 80.0),
                                ("tm_capacity_kbtuh", 30.0)]):
        if g == 1:
            kw[k] = x
        elif g:         # named by model, which a swing tank's element cannot be
            kw["tm_model"] = "MODELS_AOSmithHPTS50_R_MP"
    bad = kind is None or (kind not in ("plain", "instant") and not (have[0] and have[1])) or \
        (pre and kind in ("parallel", "swing") and not (have[2] and have[3])) or (pre and kind == "swing" and have[3] == 2)
    mag = v.real("mag", 20, 300)
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    o = v.outcome(EcosizerEngine, "multi_family", mag, {"design_oat_f": 30.0, "design_inlet_water_temp_f": 50.0}, 120.0, 150.0,
                  schematic, gpdpp=25.0, **kw)
    if bad:
        v.check("refused", o.raised is ValueError)
    else:
        v.check("built", o.raised is None)


# ------------------------------------------------------------------ climate, models
PLACES = ["94922", 94922, "90001", 90001, 3, 16, 96, 1, "ID - Boise Air Terminal", "OR - Portland International Ap",
          {"design_oat_f": 12.0, "design_inlet_water_temp_f": 44.0}, "00000", 0, 97, 120, "nowhere", 12.5, None, 123456, 1234]


@harness("E01", samples=60)
def place(v):
    """Bounded: zip codes, zone numbers, stations and stated conditions each give the building that climate."""
    if v.symbolic:
        return
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine, get_oat_buckets
    p = v.choice("place", PLACES)
    kw = dict(storage_volume_storageT_gal=400.0, heating_capacity_kbtuh=120.0, gpdpp=25.0)
    o = v.outcome(EcosizerEngine, "multi_family", 60.0, p, 120.0, 150.0, "primary_no_recirc", **kw)
    if isinstance(p, dict):
        z = ClimateZone.from_design_conditions(**p)
    else:
        how = ("zip_code", ClimateZone.from_zip_code) if p in ("94922", 94922, "90001", 90001, "00000") else \
            ("zone_id", ClimateZone.from_zone_id) if isinstance(p, int) and 1 <= p <= 96 else \
            ("weather_station", ClimateZone.from_weather_station) if isinstance(p, str) else None
        want = v.outcome(how[1], p) if how else None
        if want is None or want.raised:
            v.check("unknown place refused", o.raised is ValueError)
            return
        z = want.value
        v.check("buckets of the place", get_oat_buckets(**{how[0]: p}) == z.get_oat_buckets())
    v.check("accepted", o.raised is None)
    b = o.value._building
    v.check("design conditions of the place", v.and_(
        v.eq(b.get_design_inlet_water_temp_f(), z.get_design_inlet_water_temp_f()),
        v.eq(b.get_design_oat_f(), z.get_design_oat_f())))
    if not isinstance(p, dict):
        for i in (0, 4000, 8759):
            v.check("weather of the place", v.and_(v.eq(b.get_oat_f(i, 60), z.get_oat_f(i, 60)),
                                                   v.eq(b.get_inlet_water_temp_f(i, 60), z.get_inlet_water_temp_f(i, 60))))


def slope24(a):
    return [(1.0 + a * h) / (24.0 + a * 276.0) for h in range(24)]


@harness("E01", max_paths=20000)
def the_building(v):
    """The building the engine works for is the one named: its use and shapes are those of the building type, magnitude,
    use per person and shapes given, what is left out taking the defaults of the type."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    kind = v.choice("kind", ["multi_family", "motel", "office_building", None])
    mag = v.real("mag", 1, 500)
    given = {}
    if v.choice("person", [False, True]):
        given["gpdpp"] = v.real("gpdpp", 5, 60)
    if kind is None or v.choice("peak", [False, True]):
        given["custom_peak_load_shape"] = slope24(0.5)
    if v.choice("avg", [False, True]):
        given["custom_avg_load_shape"] = slope24(0.25)
    p = {"design_oat_f": 30.0, "design_inlet_water_temp_f": 50.0}
    e = v.call(EcosizerEngine, kind, mag, p, 120.0, 150.0, "primary_no_recirc", storage_volume_storageT_gal=400.0,
               heating_capacity_kbtuh=120.0, **given)
    b = v.call(Building.from_building_type, kind, mag, None, **given)
    v.check("daily use", v.eq(v.call(e.get_hw_magnitude), b.daily_dhw_use_supplyT_gal))
    for avg in (False, True):
        for h in (0, 7, 19, 23):
            v.check("hourly use", v.eq(v.call(e._building.get_dhw_load_supplyT_gal, h, 60, avg),
                                       v.call(b.get_dhw_load_supplyT_gal, h, 60, avg)))


# ------------------------------------------------------------------ E02
def maps():
    import json
    import os
    import ecoengine
    with open(os.path.join(os.path.dirname(ecoengine.__file__), "data", "preformanceMaps", "maps.json")) as f:
        return json.load(f)


@harness("E02", max_paths=200000)
def output_capacity(v):
    """The capacity quoted for a model is that of its map, times the units, less the defrost derate, in the unit asked."""
    from ecoengine.interfaces.EcosizerEngine import get_hpwh_output_capacity
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    names = list(maps())
    model = v.choice("model", names[::9] if v.symbolic else names)
    oat, inlet, out = v.choice("at", [(50.0, 50.0, 130.0), (67.5, 60.0, 125.0), (80.0, 55.0, 140.0), (41.0, 45.0, 120.0)])
    n = v.int_("n", -2, sample=(-2, 9))
    derate = v.real("derate", -0.5, 1.5)
    kw = v.boolean("kw")
    one = v.call(v.call(PerformanceMap.from_model_name, model).get_capacity_kbtuh, oat, out, inlet)
    o = v.outcome(get_hpwh_output_capacity, model, oat, inlet, out, num_heaters=n, return_as_kw=kw, defrost_derate=derate)
    ok = v.and_(v.le(1, n, exact=True), v.le(0.0, derate, exact=True), v.le(derate, 1.0, exact=True))
    if o.raised is not None:
        v.check("refused only when out of range", v.and_(o.raised is ValueError, v.not_(ok)))
        return
    v.check("accepted only in range", ok)
    want = v.ite(kw, one * n * (1.0 - derate) / KBTUH_PER_KW, one * n * (1.0 - derate))
    v.check("capacity of the units", v.between(0.99999 * want, o.value, 1.00001 * want))


@harness("E02", samples=60)
def model_list(v):
    """Bounded: every combination of filters over the whole catalogue."""
    if v.symbolic:
        return
    from ecoengine.interfaces.EcosizerEngine import get_list_of_models, get_weather_stations
    data = maps()
    mp, res, sgip = v.choice("mp", [False, True]), v.choice("res", [False, True]), v.choice("sgip", [False, True])
    out = v.choice("out", [None, [], list(data)[:7], list(data)[::5], list(data)])
    got = v.call(get_list_of_models, multi_pass=mp, include_residential=res, exclude_models=out, sgip_models_only=sgip)
    want = [[k, m["name"]] for k, m in data.items()
            if k not in (out or []) and k.endswith("_MP") == mp and (m["SGIP_avail"] or not sgip) and (res or "_C_" in k[-5:])]
    v.check("exactly the models that pass", [list(x) for x in got] == want)
    import csv
    import os
    import ecoengine
    with open(os.path.join(os.path.dirname(ecoengine.__file__), "data", "climate_data",
                           "WeatherStation_ClimateZone_Lookup.csv"), newline="") as f:
        rows = [[r[0], int(r[1])] for r in list(csv.reader(f))[1:] if len(r) == 2]
    ex = v.choice("zones", [None, [], [67, 96], [1, 2, 3, 90]])
    got = v.call(get_weather_stations, ex) if ex is not None else v.call(get_weather_stations)
    v.check("stations outside the excluded zones", [list(x) for x in got] == [r for r in rows if r[1] not in ([96] if ex is None else ex)])


@harness("E02", samples=10)
def curve_points(v):
    """Bounded: the points handed out with the engine's curve are those of the curve, and the marked one is its own sizing."""
    if v.symbolic:
        return
    schematic = v.choice("schematic", ["primary_no_recirc", "single_pass_rtp", "parallel_loop"])
    ls = v.choice("ls", [False, True])
    on, run = v.choice("on", [0.4, 0.5, 0.3]), v.choice("run", [16.0, 15.3, 20.0])
    share = v.choice("share", [0.95, 0.6])
    kw = dict(aquastat_fract=on, max_daily_run_hr=run, load_shift_percent=share)
    if schematic != "primary_no_recirc":
        kw.update(return_temp_f=108.0, return_flow_gpm=2.0)
    if ls:
        kw.update(load_shift_schedule=runs([(17, 20)]), load_up_hours=2, shed_aquastat_fract=0.75, load_up_aquastat_fract=0.25)
    e = engine(v, schematic, v.real("mag", 30, 200), 120.0, 150.0, **kw)
    fig, x, y, i = v.call(e.plot_sizing_curve, return_with_x_y_points=True)
    r = v.call(e.get_sizing_results)
    v.check("as many volumes as capacities", len(x) == len(y) and 0 <= i < len(x))
    if ls:
        v.check("marked percentage", v.eq(x[i], share * 100.0))
        v.check("marked storage", v.eq(y[i], r["min_storage_storageT_gal"]))
        v.check("percentages rise", all(a < b for a, b in zip(x, x[1:])))
    else:
        v.check("marked point", v.and_(v.eq(x[i], r["min_storage_storageT_gal"]), v.eq(y[i], r["min_capacity_kbtuh"])))
        v.check("storage rises while capacity falls", all(a <= b for a, b in zip(x, x[1:])) and all(a >= b for a, b in zip(y, y[1:])))
    v.check("the figure shows the same points", [float(a) for a in fig.data[0].x] == [float(a) for a in x] and
            [float(a) for a in fig.data[0].y] == [float(a) for a in y])
    shown = fig.data[1]
    v.check("the figure marks the same point", float(shown.x[0]) == float(x[i]) and float(shown.y[0]) == float(y[i])
            if not hasattr(shown, "visible") or shown.visible in (None, True) else True)


@harness("E02", samples=6)
def comparison(v):
    """Bounded: the utility comparison shows the monthly charges of both plants and nothing else."""
    if v.symbolic:
        return
    from ecoengine.interfaces.EcosizerEngine import get_annual_utility_comparison_graph as graph
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    import random
    rng = random.Random(v.int_("seed", 0, 10 ** 6))
    u = UtilityCostTracker.from_params(v.real("base", 0, 50), [16, 15], [21, 20], [12.0, 20.0], [0.3, 0.4], [5.0, 7.0],
                                       [0.1, 0.15], [0, 5], [5, 12])
    rs = []
    for _ in range(2):
        r = SimulationRun(365 * 24 * 60, 60)
        for i in range(8760):
            r.record_timestep(1.0, 1.0, 1.0, rng.choice([0.0, 5.0, rng.random() * 40]), 50.0, 50.0, [1.0] * 6)
        rs.append(r)
    hp, iwh = graph(rs[0], rs[1], u, return_as_array=True)
    fig = graph(rs[0], rs[1], u)
    for r, d, tag in ((rs[0], hp, "HP"), (rs[1], iwh, "UER")):
        want = r.get_monthly_cost_breakdown_detailed(u)
        v.check("breakdown of each run", d == want)
        bars = [t for t in fig.data if t.name.endswith(tag)]
        v.check("the bars add up to the cost", v.eq(sum(sum(t.y) for t in bars), r.get_annual_utility_cost(u), tol=1e-6))
    short = SimulationRun(3 * 24 * 60, 60)
    v.check("short runs refused", v.outcome(graph, rs[0], short, u).raised is ValueError and v.outcome(graph, short, rs[1], u).raised is ValueError)


@harness("E01", samples=40)
def presized_models(v):
    """Bounded: heaters named by model run on that model's map, as many units as asked."""
    if v.symbolic:
        return
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    names = [k for k in maps() if k.endswith("_SP")]
    model, n = v.choice("model", names), v.choice("n", [1, 2, 4])
    inlet, oat = v.real("inlet", 45, 65), v.real("oat", 45, 85)
    kw = dict(storage_volume_storageT_gal=600.0, hpwh_model=model, num_heaters=n)
    schematic = v.choice("schematic", ["primary_no_recirc", "paralleltank", "sprtp"])
    if schematic != "primary_no_recirc":
        kw.update(return_temp_f=106.0, return_flow_gpm=2.0)
    tn = v.choice("tn", [1, 3])
    tm = None
    if schematic == "paralleltank":
        tm = v.choice("tm", [k for k in maps() if k.endswith("_MP")][::6])
        kw.update(tm_storage_vol=100.0, tm_model=tm, num_tm_heaters=tn, tm_capacity_kbtuh=60.0)
    e = engine(v, schematic, 50.0, 120.0, 140.0, place={"design_oat_f": oat, "design_inlet_water_temp_f": inlet}, **kw)
    s = e._dhw_system
    for w in s.water_heaters:
        w.turn_on()
    one = PerformanceMap.from_model_name(model, design_inlet_temp_f=inlet)
    q, p = one.get_capacity_kbtuh(oat, 140.0, inlet), one.get_power_in_kw(oat, 140.0, inlet)
    v.check("heat of the units", v.eq(sum(w.get_output_kbtuh(oat, 140.0, inlet) for w in s.water_heaters), n * q, tol=1e-6))
    v.check("power of the units", v.eq(sum(w.get_power_in_kw(oat, 140.0, inlet) for w in s.water_heaters), n * p, tol=1e-6))
    if tm:
        s.tm_water_heater.turn_on()
        m = PerformanceMap.from_model_name(tm, design_inlet_temp_f=106.0, nominal_capacity_kbtuh=60.0 / tn)
        v.check("heat of a loop unit", v.eq(s.tm_water_heater.get_output_kbtuh(oat, 125.0, 120.0), m.get_capacity_kbtuh(oat, 125.0, 120.0)))
        v.check("loop units", s.num_tm_heaters == tn)


@harness("E02", samples=6)
def engine_runs(v):
    """Bounded: a simulation through the engine is the simulation of its plant and building."""
    if v.symbolic:
        return
    from ecoengine.interfaces.Simulator import simulate_3day
    schematic = v.choice("schematic", ["primary_no_recirc", "parallel_loop", "sprtp", "instant_wh", "swing_tank"])
    kw = {} if schematic in ("primary_no_recirc", "instant_wh") else dict(return_temp_f=106.0, return_flow_gpm=2.0)
    if schematic in ("parallel_loop", "swing_tank"):
        kw.update(tm_storage_vol=80.0, tm_capacity_kbtuh=30.0)
    mag = v.real("mag", 30, 120)
    a, b = [engine(v, schematic, mag, 120.0, 150.0, storage_volume_storageT_gal=mag * 6.0, heating_capacity_kbtuh=mag * 1.5, **kw)
            for _ in range(2)]
    got, want = v.call(a.simulate_3day), simulate_3day(b._dhw_system, b._building)
    for k, x in want.__dict__.items():
        if isinstance(x, list):
            v.check("record " + k, got.__dict__[k] == x)
    v.check("summary", v.call(a.get_simulation_summary, got) == want.get_summary())
    v.check("monthly energy", v.call(a.get_annual_cost_estimate, got) == {"monthly_energy_kwh": want.get_monthly_energy_kwh()})

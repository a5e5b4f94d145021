"""S01..S06: sizing of the primary plant."""
from vengine.harness import harness
from . import RHO

TYPES = ["multi_family", "mens_dorm", "womens_dorm", "motel", "nursing_home", "office_building", "food_service_a",
         "food_service_b", "apartment", "elementary_school", "junior_high", "senior_high"]
MODES = ["normal", "loadUp", "shed"]


# ------------------------------------------------------------------ oracles
def reservoir(v, gen, demand, days=2):
    """Largest shortfall of a reservoir that starts full, is refilled at `gen` per hour and serves `demand`.
    Two days suffice when the plant makes at least a day's use per day."""
    lack, worst = 0.0, 0.0
    for h in range(24 * days):
        lack = v.mx(0.0, lack + demand[h % 24] - gen)
        worst = v.mx(worst, lack)
    return worst


def usable_share(v, on, on_t, slope, sup, sto, inlet):
    """Supply-temperature gallons obtainable per gallon of a tank whose water at height `on` is at `on_t`: the heat
    of the profile above the inlet temperature, over the part at or above the sensor that is at supply temperature
    or hotter, divided by the rise of a supply-temperature gallon.  The profile rises by `slope` per percent."""
    on, on_t, slope, sup, sto, inlet = [x if v.symbolic and not isinstance(x, float) else v.num(x)
                                        for x in (on, on_t, slope, sup, sto, inlet)]
    lo = v.mx(on * 100.0, on * 100.0 + (sup - on_t) / slope)      # where the usable water begins
    hi = v.mn(100.0, on * 100.0 + (sto - on_t) / slope)           # where the water reaches storage temperature
    t_lo = on_t + slope * (lo - on * 100.0)
    t_hi = on_t + slope * (hi - on * 100.0)
    ramp = (hi - lo) * ((t_lo + t_hi) / 2.0 - inlet)
    full = (100.0 - hi) * (sto - inlet)
    return (ramp + full) / (sup - inlet) / 100.0


# ------------------------------------------------------------------ inputs
def building(v, daily, peak, inlet, avg=None):
    from ecoengine.objects.building.Building import Building
    return v.call(Building, None, daily, peak, avg or peak, design_inlet_water_temp_f=inlet, design_oat_f=30.0)


def catalogue(v, inlet, bt=None):
    from ecoengine.objects.building.Building import Building
    bt = bt or v.choice("bt", TYPES)
    mag = v.real("mag", 0, lo_open=True, sample=(1, 500))
    return v.call(Building.from_building_type, bt, mag, None, design_inlet_water_temp_f=inlet, design_oat_f=30.0)


def plant(v, sup, sto, run, defrost=1.0):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    return v.call(DHWSystem, [], None, sup, sto, run, defrost)


def controls(v, on, on_t, off, off_t, out):
    from ecoengine.objects.components.heating.Controls import Controls
    return v.call(Controls, on_sensor_fract=on, on_trigger_t_f=on_t, off_sensor_fract=off, off_trigger_t_f=off_t,
                  outlet_temp_f=out)


def temps(v):
    """Inlet, supply and storage temperature of a plant."""
    inlet = v.real("inlet", 32, 80)
    sup = v.real("sup", 90, 140)
    sto = v.real("sto", 100, 200)
    v.assume(v.le(sup, sto, exact=True))
    return inlet, sup, sto


# ------------------------------------------------------------------ S01 capacity
@harness("S01")
def capacity(v):
    """Run for the permitted hours at the sized capacity, the plant makes the whole daily load."""
    inlet, sup, sto = temps(v)
    b = catalogue(v, inlet)
    run = v.real("run", 0, 24, lo_open=True, sample=(4, 24))
    df = v.real("defrost", 0, 1, lo_open=True, sample=(0.7, 1))
    s = plant(v, sup, sto, run, df)
    v.call(s.size, b)
    cap = v.call(s.get_minimum_capacity_kbtuh)
    v.check("capacity covers the day in the permitted hours",
            v.eq(cap * df * run, b.daily_dhw_use_supplyT_gal * RHO * (sup - inlet) / 1000.0))


@harness("S01", max_paths=200000, timeout_ms=30000)
def capacity_with_loop(v):
    """Return-to-primary plants carry the loop's loss as well; a parallel loop has heaters of its own."""
    from .r01_recirc import classes, unsized
    inlet, sup, sto = temps(v)
    kind = v.choice("kind", ["parallel", "sprtp"])
    b = catalogue(v, inlet)
    run = v.real("run", 0, 24, lo_open=True, sample=(4, 24))
    df = v.real("defrost", 0, 1, lo_open=True, sample=(0.7, 1))
    ret, flow = v.real("ret", 70, 139), v.real("flow", 0, sample=(0, 15))
    v.assume(v.le(ret, sup, exact=True))
    s = unsized(v, kind, sup, sto, ret, flow, max_daily_run_hr=run, defrost_factor=df)
    v.call(s.size, b)
    lost = 24.0 * flow * 60.0 * RHO * (sup - ret) / 1000.0
    cap = v.call(s.get_minimum_capacity_kbtuh)
    day = b.daily_dhw_use_supplyT_gal * RHO * (sup - inlet) / 1000.0
    v.check("capacity covers the day, and the loop where it returns to the plant",
            v.eq(cap * df * run, day + (lost if kind == "sprtp" else 0.0)))
    if kind == "sprtp":
        v.check("the loop's share of the capacity", v.eq(v.call(s.get_recirc_capacity_kbtuh) * df * run, lost))


@harness("S01", samples=25)
def capacity_multi_pass(v):
    """Bounded: multi-pass plants, sized by a minute simulation."""
    from .r01_recirc import unsized
    if v.symbolic:
        return
    inlet = v.real("inlet", 32, 70)
    b = catalogue(v, inlet)
    run, df, flow = v.real("run", 8, 24), v.real("defrost", 0.7, 1), v.real("flow", 0.1, 8)
    s = unsized(v, "mprtp", 120.0, 140.0, 110.0, flow, max_daily_run_hr=run, defrost_factor=df)
    v.call(s.size, b, control_map={"normal": controls(v, 0.4, 125.0, 0.1, 135.0, 140.0)})
    day = b.daily_dhw_use_supplyT_gal * RHO * (120.0 - inlet) / 1000.0
    v.check("capacity covers the day and the loop",
            v.eq(s.get_minimum_capacity_kbtuh() * df * run, day + 24.0 * flow * 60.0 * RHO * 10.0 / 1000.0))


@harness("S01", max_paths=200000, timeout_ms=30000)
def capacity_instant(v):
    """Instantaneous heaters have no storage and make the busiest hour's draw as it is drawn."""
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    inlet = v.real("inlet", 32, 80)
    sup = v.real("sup", 90, 140)
    df = v.real("defrost", 0, 1, lo_open=True, sample=(0.7, 1))
    b = catalogue(v, inlet)
    built = v.choice("built", [False, True])
    if built:
        s = v.call(InstantWHSystem.from_size, b, sup, sup, df)
    else:
        s = v.call(InstantWHSystem, sup, sup, df)
        v.call(s.size, b)
    cap = v.call(s.get_minimum_capacity_kbtuh)
    daily = b.daily_dhw_use_supplyT_gal
    top = max(b.peak_load_shape)
    v.check("capacity of the busiest hour", v.eq(cap * df * 1000.0, daily * v.num(float(top)) * RHO * (sup - inlet)))
    v.check("no storage", v.eq(v.call(s.get_minimum_storage_storageT_gal), 0.0))
    t = v.choice("t", [1, 10, 60])
    i = v.choice("i", [0, 7 * 60 // t, 23 * 60 // t, 30 * 60 // t])
    r = v.call(s.simulate_step, b, i, t)
    v.check("every interval of the day is within the capacity", v.le(r["heater_output_kbtuh"], cap))


# ------------------------------------------------------------------ S02 storage
def check_storage(v, b, gen):
    daily = b.daily_dhw_use_supplyT_gal
    demand = [daily * x for x in b.peak_load_shape]
    s = plant(v, 120.0, 152.0, daily / gen)
    v.call(s.size, b, strat_slope=2.0)
    vol = v.call(s.get_minimum_storage_storageT_gal)
    share = usable_share(v, 0.0, 120.0, 2.0, 120.0, 152.0, 56.0)      # temperatures with an exact share
    v.check("storage covers exactly the largest shortfall", v.eq(vol * share, reservoir(v, gen, demand)))


def catalogue_shape(v, bt):
    """Storage of a published building type is the largest shortfall of its peak day over the usable share, for
    every size of building and every hourly output that makes the day's use within the day."""
    b = catalogue(v, 56.0, bt)
    daily = b.daily_dhw_use_supplyT_gal
    gen = v.real("gen", 0, lo_open=True, sample=(1, 4000))
    v.assume(v.le(daily, gen * 24.0, exact=True))
    if v.symbolic:
        # split by the hours whose demand exceeds the output
        cuts = sorted(set(v.num(float(x)) for x in b.peak_load_shape))
        k = v.choice("band", list(range(len(cuts) + 1)))
        if k:
            v.assume(v.le(daily * cuts[k - 1], gen, exact=True))
        if k < len(cuts):
            v.assume(v.lt(gen, daily * cuts[k], exact=True))
    check_storage(v, b, gen)


for _bt in TYPES:
    harness("S02", "shape_" + _bt, timeout_ms=60000, wall=250, max_paths=200000, samples=150)(
        lambda v, bt=_bt: catalogue_shape(v, bt))


def block_shape(v, cuts):
    """As above for days made of blocks of arbitrary demand, above or below the output in any order."""
    gen = v.real("gen", 0, lo_open=True, sample=(1, 400))
    lev = []
    for i in range(len(cuts)):
        x = v.real("lev%d" % i, 0, sample=(0, 300))
        if v.symbolic:
            up = v.choice("up%d" % i, [False, True])
            v.assume(v.lt(gen, x, exact=True) if up else v.le(x, gen, exact=True))
        lev.append(x)
    g = [lev[max([i for i in range(len(cuts)) if cuts[i] <= h], default=len(cuts) - 1)] for h in range(24)]
    daily = v.sum_(g)
    v.assume(v.lt(0, daily, exact=True))
    v.assume(v.le(daily, gen * 24.0, exact=True))
    check_storage(v, building(v, daily, [x / daily for x in g], 56.0), gen)


for _cuts in ([0, 5, 9, 16], [2, 6, 7, 20], [1, 8, 10, 23], [3, 12, 17, 18]):
    harness("S02", "blocks_" + "_".join(map(str, _cuts)), timeout_ms=60000, wall=200, max_paths=200000)(
        lambda v, cuts=_cuts: block_shape(v, cuts))


@harness("S02", samples=1500)
def arbitrary_shape(v):
    """Bounded: arbitrary 24-hour days, on the real code only."""
    if v.symbolic:
        return
    g = [v.real("g%d" % i, 0, sample=(0, 300)) for i in range(24)]
    gen = v.real("gen", 0, lo_open=True, sample=(1, 400))
    daily = v.sum_(g)
    v.assume(v.lt(0, daily, exact=True))
    v.assume(v.le(daily, gen * 24.0, exact=True))
    check_storage(v, building(v, daily, [x / daily for x in g], 56.0), gen)


# ------------------------------------------------------------------ S03 usable share
@harness("S03", timeout_ms=60000)
def storage_share(v):
    """The storage volume is the running volume over the usable share of the tank below the normal on-trigger."""
    inlet, sup, sto = temps(v)
    slope = v.real("slope", 0, lo_open=True, sample=(0.5, 6))
    on = v.real("on", 0, 1)
    on_t = v.real("on_t", 60, 200, sample=(90, 150))
    v.assume(v.le(on_t, sto, exact=True))
    v.assume(v.lt(on * 100.0 + (sup - on_t) / slope, 100.0))
    v.assume(v.lt(on, 1))
    kind = v.choice("kind", ["normal", "other"])
    m = {kind: controls(v, on, on_t, 0.0, sto, sto)}
    shape = [1.0 / 48] * 12 + [3.0 / 48] * 12
    b = building(v, 480.0, shape, inlet)
    s = plant(v, sup, sto, 24.0)
    v.call(s.size, b, control_map=m, strat_slope=slope)
    vol = v.call(s.get_minimum_storage_storageT_gal)
    v.check("volume times usable share is the running volume",
            v.eq(vol * usable_share(v, on, on_t, slope, sup, sto, inlet), 120.0))


@harness("S03", timeout_ms=60000)
def default_share(v):
    """Without controls the whole tank above supply temperature counts."""
    inlet, sup, sto = temps(v)
    slope = v.real("slope", 0, lo_open=True, sample=(0.5, 6))
    shape = [1.0 / 48] * 12 + [3.0 / 48] * 12
    b = building(v, 480.0, shape, inlet)
    s = plant(v, sup, sto, 24.0)
    v.call(s.size, b, strat_slope=slope)
    vol = v.call(s.get_minimum_storage_storageT_gal)
    v.check("volume times usable share is the running volume",
            v.eq(vol * usable_share(v, 0.0, sup, slope, sup, sto, inlet), 120.0))


@harness("S03", timeout_ms=60000)
def normal_controls_decide(v):
    """With several modes the normal mode decides; without one, the mode with the smallest usable share."""
    shape = [1.0 / 48] * 12 + [3.0 / 48] * 12
    b = building(v, 480.0, shape, 50.0)
    ons = [v.real("on%d" % i, 0, 0.9) for i in range(2)]
    names = v.choice("names", [("normal", "loadUp"), ("loadUp", "normal"), ("day", "night")])
    m = {n: controls(v, on, 120.0, 0.0, 150.0, 150.0) for n, on in zip(names, ons)}
    s = plant(v, 120.0, 150.0, 24.0)
    v.call(s.size, b, control_map=m)
    vol = v.call(s.get_minimum_storage_storageT_gal)
    shares = [usable_share(v, on, 120.0, 2.8, 120.0, 150.0, 50.0) for on in ons]
    want = shares[names.index("normal")] if "normal" in names else v.mn(*shares)
    v.check("volume times usable share is the running volume", v.eq(vol * want, 120.0))


# ------------------------------------------------------------------ S04 load shifting
def sched(shed, load_up):
    return ["shed" if h in shed else "loadUp" if h in load_up else "normal" for h in range(24)]


SCHEDULES = [sched(range(16, 20), range(13, 16)), sched(range(17, 21), range(15, 17)), sched(range(0, 5), ()),
             sched(list(range(6, 9)) + list(range(17, 21)), range(4, 6)),
             sched(range(17, 24), range(14, 17)), sched(list(range(0, 2)) + [23], (20, 21, 22)),
             sched(range(18, 22), (9, 10))]
EVENING = [0.02, 0.01, 0.01, 0.01, 0.02, 0.04, 0.07, 0.08, 0.07, 0.05, 0.04, 0.03, 0.03, 0.03, 0.02, 0.03, 0.04, 0.06,
           0.09, 0.08, 0.07, 0.05, 0.03, 0.02]
FLATTER = [0.03, 0.02, 0.02, 0.02, 0.03, 0.04, 0.06, 0.06, 0.05, 0.05, 0.04, 0.04, 0.04, 0.04, 0.04, 0.04, 0.05, 0.05,
           0.06, 0.06, 0.05, 0.05, 0.04, 0.02]


def hot_share(v, on, on_t, slope, sup, sto):
    """Share of the tank's superheat (above supply temperature) that lies above the sensor when it reads on_t."""
    lo = v.mx(on * 100.0, on * 100.0 + (sup - on_t) / slope)
    hi = v.mn(100.0, on * 100.0 + (sto - on_t) / slope)
    return ((100.0 - hi) + (hi - lo) / 2.0) / 100.0


def first_shed(schedule):
    block = []
    for h in range(24):
        if schedule[h] == "shed":
            block.append(h)
        elif block:
            break
    n = 0
    while block and block[0] - 1 - n >= 0 and schedule[block[0] - 1 - n] == "loadUp":
        n += 1
    return block, n


def ls_inputs(v):
    on_n = v.real("on_n", 0, 0.9, sample=(0.2, 0.6))
    on_s = v.real("on_s", 0.4, 0.9)
    on_l = v.real("on_l", 0, 0.9, sample=(0.0, 0.3))
    v.assume(v.and_(v.lt(on_n, on_s), v.lt(on_l, on_n)))
    return on_n, on_l, on_s


def trigger(schedule):
    """Sensors switch at supply temperature, below it or above it, from schedule to schedule."""
    return (120.0, 114.0, 127.0)[SCHEDULES.index(list(schedule)) % 3]


def ls_map(v, on_n, on_l, on_s, off_l, lu=True, t=120.0, t_ls=None):
    t_ls = t if t_ls is None else t_ls
    m = {"normal": controls(v, on_n, t, 0.0, 150.0, 150.0), "shed": controls(v, on_s, t_ls, 0.3, 150.0, 150.0)}
    if lu:
        m["loadUp"] = controls(v, on_l, t_ls, off_l, 150.0, 150.0)
    return m


def ls_capacity(v, schedule):
    """Capacity covers the day in the hours that are neither shed nor beyond the permitted run hours, and the load-up
    band plus what is used meanwhile within the load-up hours; whichever needs more."""
    on_n, on_l, on_s = ls_inputs(v)
    # without load-up controls the normal ones take their place: keep the band open
    v.assume(v.lt(on_n, on_s - 0.05))
    daily = v.real("daily", 0, lo_open=True, sample=(50, 5000))
    fract = v.real("fract", 0, 1)
    run = v.choice("run", [24.0, 16.0])
    lu = v.choice("lu", [True, False])
    b = building(v, daily, FLATTER, 50.0, EVENING)
    s = plant(v, 120.0, 150.0, run, 0.9)
    v.call(s.size, b, control_schedule=schedule, control_map=ls_map(v, on_n, on_l, on_s, 0.0, lu, trigger(schedule), 120.0),
           load_shift_fract_total_vol=fract)
    cap = v.call(s.get_minimum_capacity_kbtuh)
    hours = min(run, sum(1 for x in schedule if x != "shed"))
    rate = daily / hours
    block, n = first_shed(schedule)
    if n:
        args = [v.num(x) for x in (120.0, 2.8, 120.0, 150.0)]
        pn, ps = hot_share(v, on_n, v.num(trigger(schedule)), *args[1:]), hot_share(v, on_s, *args)
        pl = hot_share(v, on_l, *args) if lu else pn
        shifted = v.sum_([v.num(EVENING[h]) for h in block]) * daily * fract
        used = v.sum_([v.num(EVENING[h]) for h in range(block[0] - n, block[0])]) * daily
        lrate = (shifted * (pl - pn) / (pl - ps) + used) / n
        rate = v.mx(rate, lrate)
    v.check("capacity covers run hours and load-up", v.eq(cap * v.num(0.9) * 1000.0, rate * v.num(RHO) * 70.0))
    s2 = plant(v, 120.0, 150.0, run, 0.9)
    v.call(s2.size, b)
    v.check("never smaller than without load shifting", v.le(v.call(s2.get_minimum_capacity_kbtuh), cap))


def ls_storage(v, schedule):
    """Storage covers the shifted demand of the first shed block plus the largest shortfall after it, within the band
    between the load-up off-sensor and the shed on-sensor, and never less than normal storage."""
    on_n, on_l, on_s = ls_inputs(v)
    off_l = v.real("off_l", 0, 0.25)
    fract = v.real("fract", 0, 1)
    daily = 1000.0
    run = v.choice("run", [24.0, 16.0])
    lu = v.choice("lu", [True, False])
    # same load-up rate as normal rate: load-up sensors equal normal, so only storage is at stake
    m = ls_map(v, on_n, on_n, on_s, off_l, lu, trigger(schedule))
    inlet = v.num(50.0)
    b = building(v, daily, FLATTER, 50.0, EVENING)
    s = plant(v, 120.0, 150.0, run)
    v.call(s.size, b, control_schedule=schedule, control_map=m, load_shift_fract_total_vol=fract)
    vol = v.call(s.get_minimum_storage_storageT_gal)
    hours = min(run, sum(1 for x in schedule if x != "shed"))
    block, n = first_shed(schedule)
    ev = [v.num(x) * v.num(daily) for x in EVENING]
    rate = v.num(daily) / v.num(hours)
    if n:
        rate = max(rate, sum(ev[h] for h in range(block[0] - n, block[0])) / n)
    lack = worst = v.num(0.0)
    for k in range(block[-1] + 1, 48):
        lack = lack + ev[k % 24] - (0 if schedule[k % 24] == "shed" else rate)
        worst = max(worst, lack)
    need = fract * (worst + sum(ev[h] for h in block))
    args = [v.num(x) for x in (2.8, 120.0, 150.0, 50.0)]
    top = usable_share(v, off_l if lu else v.num(0.0), v.num(150.0), *args)
    band = top - usable_share(v, on_s, v.num(trigger(schedule)), *args)
    normal = reservoir(v, v.num(daily) / v.num(hours), [v.num(x) * v.num(daily) for x in FLATTER])
    share_n = usable_share(v, on_n, v.num(trigger(schedule)), *args)
    v.check("storage covers the shed period", v.le(need, vol * band, tol=1e-6))
    v.check("storage covers the normal day", v.le(normal, vol * share_n, tol=1e-6))
    v.check("and no more", v.or_(v.eq(vol * band, need, tol=1e-6), v.eq(vol * share_n, normal, tol=1e-6)))


# A single-pass return plant carries its loop as well: to a plant that heats nothing in shed hours, a loop that loses heat
# all day is further use, to be made in the permitted hours, stored through the shed and made up afterwards.
LOOP_GPM, LOOP_RET = 2.5, 111.0


def ls_loop_inputs(v, schedule, on_lu, off_l, daily, gpm, fract, on_n, on_s, df):
    from .r01_recirc import unsized
    run = v.choice("run", [24.0, 16.0])
    lu = v.choice("lu", [True, False])
    b = building(v, daily, FLATTER, 50.0, EVENING)
    s = unsized(v, "sprtp", 120.0, 150.0, LOOP_RET, gpm, max_daily_run_hr=run, defrost_factor=df)
    v.call(s.size, b, control_schedule=schedule, control_map=ls_map(v, on_n, on_lu, on_s, off_l, lu, trigger(schedule)),
           load_shift_fract_total_vol=fract)
    hours = min(run, sum(1 for x in schedule if x != "shed"))
    loop = gpm * 1440.0 * v.num(120.0 - LOOP_RET) / 70.0     # gallons heated from inlet to supply with the same heat
    return b, s, run, lu, hours, loop


def ls_loop_capacity(v, schedule):
    on_n, on_l, on_s = ls_inputs(v)
    daily = v.real("daily", 0, 1e6, lo_open=True, sample=(50, 5000))
    gpm = v.real("gpm", 0.1, 100, sample=(0.1, 10))
    fract = v.real("fract", 0, 1)
    b, s, run, lu, hours, loop = ls_loop_inputs(v, schedule, on_l, 0.0, daily, gpm, fract, on_n, on_s, 0.9)
    cap = v.call(s.get_minimum_capacity_kbtuh)
    made = cap * v.num(0.9) * 1000.0 / v.num(RHO) / 70.0   # supply-temperature gallons per hour
    v.check("covers use and loop in the permitted hours", v.le(daily + loop, made * hours, tol=1e-9))
    # a plant without a loop, sized for a building that uses the loop's gallons as well: see ls_capacity
    s2 = plant(v, 120.0, 150.0, run, 0.9)
    v.call(s2.size, building(v, daily + loop, FLATTER, 50.0, EVENING), control_schedule=schedule,
           control_map=ls_map(v, on_n, on_l, on_s, 0.0, lu, trigger(schedule)), strat_slope=1.7, load_shift_fract_total_vol=fract)
    v.check("covers the load-up, use and loop in the load-up hours", v.le(v.call(s2.get_minimum_capacity_kbtuh), cap))


def ls_loop_storage(v, schedule):
    on_n, on_l, on_s = ls_inputs(v)
    off_l = v.real("off_l", 0, 0.25)
    fract = v.real("fract", 0, 1)
    daily = 1000.0
    b, s, run, lu, hours, loop = ls_loop_inputs(v, schedule, on_n, off_l, daily, v.num(LOOP_GPM), fract, on_n, on_s, 1.0)
    vol = v.call(s.get_minimum_storage_storageT_gal)
    block, n = first_shed(schedule)
    day = v.num(daily) + loop
    ev = [v.num(x) * day for x in EVENING]
    rate = day / v.num(hours)
    if n:
        rate = max(rate, sum(ev[h] for h in range(block[0] - n, block[0])) / n)
    lack = worst = v.num(0.0)
    for k in range(block[-1] + 1, 48):
        lack = lack + ev[k % 24] - (0 if schedule[k % 24] == "shed" else rate)
        worst = max(worst, lack)
    need = fract * (worst + sum(ev[h] for h in block))
    args = [v.num(x) for x in (1.7, 120.0, 150.0, 50.0)]
    top = usable_share(v, off_l if lu else v.num(0.0), v.num(150.0), *args)
    band = top - usable_share(v, on_s, v.num(trigger(schedule)), *args)
    normal = reservoir(v, v.num(daily) / v.num(hours), [v.num(x) * v.num(daily) for x in FLATTER])
    share_n = usable_share(v, on_n, v.num(trigger(schedule)), *args)
    v.check("storage covers use and loop through the shed period", v.le(need, vol * band, tol=1e-6))
    v.check("storage covers the normal day", v.le(normal, vol * share_n, tol=1e-6))
    v.check("and no more", v.or_(v.eq(vol * band, need, tol=1e-6), v.eq(vol * share_n, normal, tol=1e-6)))


for _i in (0, 4, 6):
    for _f in (ls_loop_capacity, ls_loop_storage):
        harness("S04", _f.__name__ + "_%d" % _i, timeout_ms=30000, wall=200, max_paths=100000, samples=100)(
            lambda v, f=_f, sc=SCHEDULES[_i]: f(v, list(sc)))

for _i, _sch in enumerate(SCHEDULES):
    for _f in (ls_capacity, ls_storage):
        harness("S04", _f.__name__ + "_%d" % _i, timeout_ms=30000, wall=200, max_paths=100000, samples=100)(
            lambda v, f=_f, sc=_sch: f(v, list(sc)))

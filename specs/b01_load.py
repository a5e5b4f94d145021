"""B01: hot water demand per interval; B02: building construction; B03: climate look-ups."""
from vengine.harness import harness

GPD = {"mens_dorm": 23.6, "womens_dorm": 19.6, "motel": 21.4, "nursing_home": 23.4, "office_building": 2.1,
       "food_service_a": 11.032, "food_service_b": 6.44, "apartment": 54.6, "elementary_school": 1.34,
       "junior_high": 3.75, "senior_high": 3.26}
STEPS = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
MONTH_DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def building(v, n, peak, avg, daily, cz=None):
    from ecoengine.objects.building.Building import Building
    return v.call(Building, cz, daily, peak, avg)


@harness("B01", max_paths=20000)
def interval_load(v):
    """The demand of any interval is the daily use times the share of its hour, pro rata, the shape repeating."""
    n = v.choice("n", [24, 8760])
    peak = v.series("peak", n, 0, 1)
    avg = v.series("avg", n, 0, 1)
    daily = v.real("daily", 0, sample=(0, 20000))
    b = building(v, n, peak, avg, daily)
    m = v.choice("m", STEPS)
    k = v.int_("hour", 0, n - 1)
    cyc = v.int_("cycle", 0, sample=(0, 3))
    r = v.int_("part", 0, 60 // m - 1)
    step = (cyc * n + k) * (60 // m) + r
    which = v.choice("which", ["default", "peak", "avg"])
    kw = {} if which == "default" else {"use_avg": which == "avg"}
    g = v.call(b.get_dhw_load_supplyT_gal, step, m, **kw)
    sh = avg if which == "avg" else peak
    v.check("share of the hour", v.eq(g, daily * sh[k] * m / 60.0))


ODD = [7, 13, 29, 45, 58, 90, 120, 180, 240, 1440]


def odd_interval(v, n):
    """Any interval of a length that does not divide an hour: its index, length and the hour (of n) it starts in."""
    m = v.choice("m", ODD)
    if not v.symbolic:
        step = v.int_("step", 0, sample=(0, 3 * n * 60 // m))
        return step, m, step * m // 60 % n
    step = v.int_("step", 0)
    k, cyc, rest = v.int_("hour", 0, n - 1), v.int_("cycle", 0), v.int_("rest", 0, 59)
    v.assume(v.eq(step * m, 60 * (cyc * n + k) + rest))
    return step, m, k


@harness("B01", max_paths=20000)
def odd_interval_load(v):
    """Intervals that reach over the end of an hour, or over several hours: the share of the hour they start in."""
    n = v.choice("n", [24, 8760])
    peak = v.series("peak", n, 0, 1)
    daily = v.real("daily", 0, sample=(0, 20000))
    b = building(v, n, peak, peak, daily)
    step, m, k = odd_interval(v, n)
    v.check("share of the hour", v.eq(v.call(b.get_dhw_load_supplyT_gal, step, m), daily * peak[k] * m / 60.0))


@harness("B01")
def daily_total(v):
    """The intervals of any day add up to the daily use times the sum of the shape."""
    peak = [v.real("s%d" % i, 0, 1) for i in range(24)]
    daily = v.real("daily", 0, sample=(0, 20000))
    b = building(v, 24, peak, peak, daily)
    m = v.choice("m", [60, 30, 15])
    day = v.choice("day", [0, 1, 364])
    per = 1440 // m
    tot = v.sum_([v.call(b.get_dhw_load_supplyT_gal, day * per + i, m) for i in range(per)])
    v.check("the day adds up", v.eq(tot, daily * v.sum_(peak)))


@harness("B01")
def default_interval(v):
    """The default interval is one minute."""
    peak = v.series("peak", 24, 0, 1)
    daily = v.real("daily", 0, sample=(0, 20000))
    b = building(v, 24, peak, peak, daily)
    step = v.int_("step", 0, sample=(0, 600000))
    v.check("one minute", v.eq(v.call(b.get_dhw_load_supplyT_gal, step),
                               v.call(b.get_dhw_load_supplyT_gal, step, 1)))
    v.check("never negative", v.le(0, v.call(b.get_dhw_load_supplyT_gal, step)))


@harness("B01")
def annual_switch(v):
    """Switching to the annual shape and back leaves the daily use and the standard shapes in place."""
    from ecoengine.objects.building.Building import Building
    mag = v.real("mag", 0, lo_open=True, sample=(1, 400))
    b = v.call(Building.from_building_type, "multi_family", mag, None)
    p0, a0, d0 = list(b.peak_load_shape), list(b.avg_load_shape), b.daily_dhw_use_supplyT_gal
    v.check("daily at first", v.not_(v.call(b.is_annual_load_shape)))
    v.call(b.set_to_annual_load_shape)
    v.check("annual", v.call(b.is_annual_load_shape))
    v.check("hours of the year", len(b.peak_load_shape) == 8760 and len(b.avg_load_shape) == 8760)
    v.check("daily use kept", v.eq(b.daily_dhw_use_supplyT_gal, d0))
    v.call(b.set_to_daily_load_shape)
    v.check("daily again", v.not_(v.call(b.is_annual_load_shape)))
    v.check("peak shape restored", v.same(list(b.peak_load_shape), p0))
    v.check("average shape restored", v.same(list(b.avg_load_shape), a0))
    v.check("daily use kept afterwards", v.eq(b.daily_dhw_use_supplyT_gal, d0))


@harness("B01")
def annual_only_multifamily(v):
    from ecoengine.objects.building.Building import Building
    bt = v.choice("bt", sorted(GPD))
    b = v.call(Building.from_building_type, bt, 10.0, None)
    p0 = list(b.peak_load_shape)
    v.check("annual refused", v.outcome(b.set_to_annual_load_shape).raised is ValueError)
    v.check("daily refused", v.outcome(b.set_to_daily_load_shape).raised is ValueError)
    v.check("shape kept", v.same(list(b.peak_load_shape), p0))
    v.check("annual construction refused",
            v.outcome(Building.from_building_type, bt, 10.0, None, annual=True).raised is ValueError)


# ------------------------------------------------------------------ B02
def is_shape(v, xs, tol=0.001):
    xs = list(xs)
    return v.and_(len(xs) == 24, v.le(v.abs_(v.sum_(xs) - 1.0), tol), *[v.le(0, x) for x in xs])


def shape24(v, tag, neg=False):
    return [v.real("%s%d" % (tag, i), None if neg else 0, sample=(0, 0.1)) for i in range(24)]


def near1(v, xs):
    """A valid normalised shape: 23 arbitrary shares and the remainder."""
    rest = 1.0 - v.sum_(xs[:23])
    v.assume(v.le(0, rest))
    return xs[:23] + [rest]


def valid_shape(v, tag):
    return near1(v, [v.real("%s%d" % (tag, i), 0, 1, sample=(0, 0.08)) for i in range(24)])


@harness("B02")
def named_types(v):
    """Daily use of a named building type is its per-unit use times the magnitude, with a normalised shape."""
    from ecoengine.objects.building.Building import Building
    bt = v.choice("bt", sorted(GPD))
    mag = v.real("mag", 0, lo_open=True, sample=(1, 400))
    aslist = v.choice("aslist", [False, True])
    b = v.call(Building.from_building_type, [bt] if aslist else bt, [mag] if aslist else mag, None)
    v.check("daily use", v.eq(b.daily_dhw_use_supplyT_gal, GPD[bt] * mag))
    v.check("peak shape normalised", is_shape(v, b.peak_load_shape))
    v.check("average shape normalised", is_shape(v, b.avg_load_shape))
    v.check("type recorded", b.building_type == bt)


@harness("B02")
def multi_family(v):
    """Multi-family use is gallons per person times people; a standard overrides the per-person figure."""
    from ecoengine.objects.building.Building import Building
    mag = v.real("mag", 0, lo_open=True, sample=(1, 400))
    g = v.real("gpdpp", 0, sample=(5, 60))
    b = v.call(Building.from_building_type, "multi_family", mag, None, gpdpp=g)
    v.check("daily use", v.eq(b.daily_dhw_use_supplyT_gal, g * mag))
    v.check("peak shape normalised", is_shape(v, b.peak_load_shape))
    v.check("average shape normalised", is_shape(v, b.avg_load_shape))
    d = v.call(Building.from_building_type, "multi_family", mag, None)
    v.check("default per person", v.eq(d.daily_dhw_use_supplyT_gal, 25 * mag))
    for std, val in (("ashLow", 20), ("ashMed", 49), ("ecoMark", 25)):
        s = v.call(Building.from_building_type, "multi_family", mag, None, gpdpp=g, standard_gpd=std)
        v.check("standard " + std, v.eq(s.daily_dhw_use_supplyT_gal, val * mag))


@harness("B02")
def ca_standard(v):
    """The California figure depends on the mix of apartments, not on how many there are of each in total."""
    from ecoengine.objects.building.Building import Building
    mag = v.real("mag", 0, lo_open=True, sample=(1, 400))
    mix = v.choice("mix", [[1, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 1], [2, 3, 4, 1, 0, 1], [0, 10, 0, 5, 0, 0]])
    k = v.choice("k", [2, 7])
    a = v.call(Building.from_building_type, "multi_family", mag, None, standard_gpd="ca", n_br=mix)
    b = v.call(Building.from_building_type, "multi_family", mag, None, standard_gpd="ca", n_br=[k * x for x in mix])
    v.check("same mix, same use", v.eq(a.daily_dhw_use_supplyT_gal, b.daily_dhw_use_supplyT_gal))
    v.check("some use", v.lt(0, a.daily_dhw_use_supplyT_gal))
    bad = v.choice("bad", [None, [1, 2], [0] * 6, 5])
    v.check("mix required", v.outcome(Building.from_building_type, "multi_family", mag, None, standard_gpd="ca",
                                      n_br=bad).raised is ValueError)


@harness("B02")
def rejected(v):
    """Unknown types, non-positive magnitudes, unknown standards and mismatched lists are refused."""
    from ecoengine.objects.building.Building import Building
    f = Building.from_building_type
    mag = v.real("mag", sample=(-20, 20))
    case = v.choice("case", list(range(9)))
    o = None
    if case == 0:
        v.assume(v.le(mag, 0))
        o = v.outcome(f, v.choice("bt", ["multi_family", "motel"]), mag, None)
    elif case == 1:
        o = v.outcome(f, v.choice("bt", ["Multi_Family", "house", "", "multi_use"]), 10.0, None)
    elif case == 2:
        o = v.outcome(f, "multi_family", 10.0, None, standard_gpd=v.choice("std", ["CA", "ashrae", ""]))
    elif case == 3:
        o = v.outcome(f, ["motel", "apartment"], 10.0, None)
    elif case == 4:
        o = v.outcome(f, ["motel", "apartment"], [10.0, 5.0, 3.0], None)
    elif case == 5:
        o = v.outcome(f, None, None, None)
    elif case == 6:
        o = v.outcome(f, ["motel", "apartment"], [10.0, mag], None) if v.symbolic or mag <= 0 else None
        v.assume(v.le(mag, 0))
    elif case == 7:
        o = v.outcome(f, ["motel", "apartment"], [10.0, 4.0], None, custom_peak_load_shape=[1.0 / 24] * 24)
    else:
        o = v.outcome(f, 7, 10.0, None)
    v.check("refused", o is None or o.raised is ValueError)


@harness("B02", samples=1500)
def custom_shape_validation(v):
    """A custom shape is accepted exactly when it has 24 non-negative shares adding to one (within 0.001)."""
    from ecoengine.objects.building.Building import Building
    xs = valid_shape(v, "s")
    i = v.choice("i", [0, 11, 23])
    xs = list(xs)
    xs[i] = xs[i] + v.real("d", sample=(-0.2, 0.2))
    role = v.choice("role", ["custom_peak_load_shape", "custom_avg_load_shape"])
    bt = v.choice("bt", ["multi_family", "motel"])
    o = v.outcome(Building.from_building_type, bt, 10.0, None, **{role: xs})
    ok = v.and_(v.le(v.abs_(v.sum_(xs) - 1.0), 0.001), *[v.le(0, x) for x in xs])
    bad = v.or_(v.lt(0.001, v.abs_(v.sum_(xs) - 1.0)), *[v.lt(x, 0) for x in xs])
    if o.raised:
        v.check("refusal is a value error", o.raised is ValueError)
        v.check("only invalid shapes refused", v.not_(ok))
    else:
        v.check("only valid shapes accepted", v.not_(bad))
        sh = o.value.peak_load_shape if role == "custom_peak_load_shape" else o.value.avg_load_shape
        v.check("shape kept as given", v.same(list(sh), xs))


@harness("B02")
def custom_shape_length(v):
    from ecoengine.objects.building.Building import Building
    n = v.choice("n", [0, 1, 12, 23, 25, 48])
    xs = [1.0 / n] * n if n else []
    role = v.choice("role", ["custom_peak_load_shape", "custom_avg_load_shape"])
    o = v.outcome(Building.from_building_type, "motel", 10.0, None, **{role: xs})
    v.check("wrong length refused", o.raised is ValueError)


@harness("B02")
def custom_building(v):
    """A building given only by its hourly gallons uses their total per day and their shares as its shape."""
    from ecoengine.objects.building.Building import Building
    xs = [v.real("g%d" % i, 0, sample=(0, 300)) for i in range(24)]
    tot = v.sum_(xs)
    v.assume(v.lt(2, tot))
    given = v.choice("given", [False, True])
    mag = v.real("mag", 0, lo_open=True, sample=(1, 9000))
    own = v.choice("own", [False, True])
    ys = [v.real("a%d" % i, 0, sample=(0, 300)) for i in range(24)] if own else xs
    tot_avg = v.sum_(ys)
    v.assume(v.lt(2, tot_avg))
    b = v.call(Building.from_building_type, None, mag if given else None, None, custom_peak_load_shape=xs,
               custom_avg_load_shape=ys if own else None)
    v.check("daily use", v.eq(b.daily_dhw_use_supplyT_gal, mag if given else tot))
    for i in (0, 7, 23):
        v.check("shares", v.eq(b.peak_load_shape[i] * tot, xs[i]))
        v.check("average has its own shape, or that of the peak day", v.eq(b.avg_load_shape[i] * tot_avg, ys[i]))
    v.check("24 hours", len(list(b.peak_load_shape)) == 24 and len(list(b.avg_load_shape)) == 24)


@harness("B02")
def custom_building_invalid(v):
    """A custom building whose shape is not 24 non-negative values is refused, however it is scaled."""
    from ecoengine.objects.building.Building import Building
    n = v.choice("n", [23, 24, 25])
    xs = [v.real("g%d" % i, 0, sample=(0, 300)) for i in range(n)]
    if n == 24:
        i = v.choice("i", [0, 13, 23])
        xs[i] = v.real("neg", None, 0, hi_open=True, sample=(-50, -1))
    if v.choice("all", [False, True]):
        xs = [0 - v.abs_(x) for x in xs]
    mag = v.choice("mag", [None, 500.0])
    good = [1.0 / 24] * 24
    if v.choice("avg", [False, True]):
        o = v.outcome(Building.from_building_type, None, mag, None, custom_peak_load_shape=good, custom_avg_load_shape=xs)
    else:
        o = v.outcome(Building.from_building_type, None, mag, None, custom_peak_load_shape=xs)
    v.check("refused", o.raised is ValueError)


@harness("B02")
def custom_building_bad_use(v):
    """A custom building with a stated daily use that is not positive, or with a shape without any use, is refused."""
    from ecoengine.objects.building.Building import Building
    bad = v.choice("bad", ["use", "peak", "avg"])
    mag = v.real("mag", None, 0, sample=(-50, 0)) if bad == "use" else v.choice("m", [None, 500.0])
    xs = [0.0] * 24 if bad == "peak" else [1.0 / 24] * 24
    avg = [0.0] * 24 if bad == "avg" else None
    v.check("refused", v.outcome(Building.from_building_type, None, mag, None, custom_peak_load_shape=xs,
                                 custom_avg_load_shape=avg).raised is ValueError)


@harness("B02", timeout_ms=40000)
def multi_use(v):
    """A multi-use building uses the sum of its parts and, hour by hour, the gallons of its parts."""
    from ecoengine.objects.building.Building import Building
    m1 = v.real("m1", 0, lo_open=True, sample=(1, 400))
    m2 = v.real("m2", 0, lo_open=True, sample=(1, 400))
    sh = valid_shape(v, "s")
    a = v.call(Building.from_building_type, "motel", m1, None)
    role = v.choice("custom", [False, True])
    if role:
        b = v.call(Building.from_building_type, "multi_family", m2, None, custom_peak_load_shape=sh)
        c = v.call(Building.from_building_type, ["motel", "multi_family"], [m1, m2], None,
                   custom_peak_load_shape=[None, sh])
    else:
        b = v.call(Building.from_building_type, "multi_family", m2, None)
        c = v.call(Building.from_building_type, ["motel", "multi_family"], [m1, m2], None)
    v.check("daily use adds", v.eq(c.daily_dhw_use_supplyT_gal, a.daily_dhw_use_supplyT_gal + b.daily_dhw_use_supplyT_gal))
    for avg in (False, True):
        for h in (0, 6, 23):
            ga = v.call(a.get_dhw_load_supplyT_gal, h, 60, avg)
            gb = v.call(b.get_dhw_load_supplyT_gal, h, 60, avg)
            gc = v.call(c.get_dhw_load_supplyT_gal, h, 60, avg)
            v.check("hourly use adds", v.eq(gc, ga + gb))
    v.check("24 hours", len(list(c.peak_load_shape)) == 24)


@harness("B02")
def multi_use_three(v):
    from ecoengine.objects.building.Building import Building
    ms = [v.real("m%d" % i, 0, lo_open=True, sample=(1, 400)) for i in range(3)]
    bts = v.choice("bts", [["office_building", "apartment", "motel"], ["senior_high", "multi_family", "food_service_b"]])
    parts = [v.call(Building.from_building_type, t, m, None) for t, m in zip(bts, ms)]
    c = v.call(Building.from_building_type, bts, ms, None)
    v.check("daily use adds", v.eq(c.daily_dhw_use_supplyT_gal, v.sum_([p.daily_dhw_use_supplyT_gal for p in parts])))
    h = v.choice("h", [0, 5, 12, 23])
    v.check("hourly use adds", v.eq(v.call(c.get_dhw_load_supplyT_gal, h, 60),
                                    v.sum_([v.call(p.get_dhw_load_supplyT_gal, h, 60) for p in parts])))


# ------------------------------------------------------------------ B03
@harness("B03")
def hourly_oat(v):
    """Outdoor temperature at any interval is the value of its hour of the year, the year repeating."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    n = v.choice("n", [8760, 24])
    oat = v.series("oat", n, -60, 130)
    inl = [v.real("w%d" % i, 32, 90) for i in range(12)]
    cz = v.call(ClimateZone, 1, oat, inl)
    m = v.choice("m", [1, 6, 15, 60])
    h = v.int_("hour", 0, n - 1)
    yr = v.int_("year", 0, sample=(0, 3))
    r = v.int_("part", 0, 60 // m - 1)
    step = (yr * n + h) * (60 // m) + r
    v.check("temperature of the hour", v.eq(v.call(cz.get_oat_f, step, m), oat[h]))
    b = v.call(Building, cz, 100.0, [1.0 / 24] * 24, [1.0 / 24] * 24)
    v.check("same through the building", v.eq(v.call(b.get_oat_f, step, m), oat[h]))


@harness("B03", max_paths=20000)
def odd_interval_weather(v):
    """Intervals of a length that does not divide an hour see the air temperature of the hour they start in."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    oat = v.series("oat", 8760, -60, 130)
    cz = v.call(ClimateZone, 1, oat, [50.0] * 12)
    step, m, k = odd_interval(v, 8760)
    v.check("temperature of the hour", v.eq(v.call(cz.get_oat_f, step, m), oat[k]))


@harness("B03", max_paths=20000)
def odd_interval_inlet(v):
    """The same for the inlet temperature of the calendar month."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    inl = [v.real("w%d" % i, 32, 90) for i in range(12)]
    cz = v.call(ClimateZone, 1, [50.0] * 24, inl)
    m = v.choice("m", [7, 29, 90, 120, 1440])
    if v.symbolic:
        mo = v.choice("month", list(range(12)))
        step, day, yr = v.int_("step", 0), v.int_("day", 0, MONTH_DAYS[mo] - 1), v.int_("year", 0)
        rest = v.int_("rest", 0, 1439)
        v.assume(v.eq(step * m, 1440 * (yr * 365 + sum(MONTH_DAYS[:mo]) + day) + rest))
    else:
        step = v.int_("step", 0, sample=(0, 3 * 525600 // m))
        day = step * m // 1440 % 365
        mo = [i for i in range(12) if day < sum(MONTH_DAYS[:i + 1])][0]
    v.check("inlet temperature of the month", v.eq(v.call(cz.get_inlet_water_temp_f, step, m), inl[mo]))


@harness("B03", max_paths=20000)
def monthly_inlet(v):
    """Inlet water temperature at any interval is the value of its calendar month, the year repeating."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    inl = [v.real("w%d" % i, 32, 90) for i in range(12)]
    cz = v.call(ClimateZone, 1, [50.0] * 24, inl)
    m = v.choice("m", [1, 15, 60])
    mo = v.choice("month", list(range(12)))
    day = v.int_("day", 0, MONTH_DAYS[mo] - 1)
    mi = v.int_("part", 0, 1440 // m - 1)
    yr = v.int_("year", 0, sample=(0, 3))
    step = (yr * 365 + sum(MONTH_DAYS[:mo]) + day) * (1440 // m) + mi
    v.check("temperature of the month", v.eq(v.call(cz.get_inlet_water_temp_f, step, m), inl[mo]))
    b = v.call(Building, cz, 100.0, [1.0 / 24] * 24, [1.0 / 24] * 24)
    v.check("same through the building", v.eq(v.call(b.get_inlet_water_temp_f, step, m), inl[mo]))


@harness("B03")
def design_conditions(v):
    """Design conditions are the coldest hour and the coldest month, or the stated constants."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    inl = [v.real("w%d" % i, 32, 90) for i in range(12)]
    oat = [v.real("o%d" % i, -60, 130) for i in range(24)]
    cz = v.call(ClimateZone, 1, oat, inl)
    b = v.call(Building, cz, 100.0, [1.0 / 24] * 24, [1.0 / 24] * 24)
    for o in (cz, b):
        v.check("coldest hour", v.eq(v.call(o.get_design_oat_f), v.mn(*oat)))
        v.check("coldest month", v.eq(v.call(o.get_design_inlet_water_temp_f), v.mn(*inl)))


@harness("B03")
def constant_conditions(v):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    oat = v.real("oat", -60, 130) if v.choice("ho", [True, False]) else None
    inl = v.real("inl", 32, 90) if v.choice("hi", [True, False]) else None
    sh = [1.0 / 24] * 24
    step = v.int_("step", 0, sample=(0, 600000))
    m = v.choice("m", [1, 60])
    b = v.call(Building, None, 100.0, sh, sh, design_oat_f=oat, design_inlet_water_temp_f=inl)
    if oat is not None:
        v.check("constant air temperature", v.eq(v.call(b.get_oat_f, step, m), oat))
        v.check("design air temperature", v.eq(v.call(b.get_design_oat_f), oat))
    if inl is not None:
        v.check("constant inlet temperature", v.eq(v.call(b.get_inlet_water_temp_f, step, m), inl))
        v.check("design inlet temperature", v.eq(v.call(b.get_design_inlet_water_temp_f), inl))
    if oat is None and inl is None:
        v.check("no climate, no design conditions", v.call(b.get_design_oat_f) is None
                and v.call(b.get_design_inlet_water_temp_f) is None)
    cz = v.call(ClimateZone.from_design_conditions, oat, inl)
    v.check("no buckets without weather", v.outcome(cz.get_oat_buckets).raised is ValueError)
    real = v.call(ClimateZone, 1, [10.0] * 24, [40.0] * 12)
    b2 = v.call(Building, real, 100.0, sh, sh, design_oat_f=oat, design_inlet_water_temp_f=inl)
    v.check("a real climate wins over design conditions", v.eq(v.call(b2.get_oat_f, step, m), 10.0))


@harness("B03", samples=40)
def buckets(v):
    """Every day falls in exactly one 5-degree bucket, the one containing its mean temperature."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    a, b, d = v.choice("abd", [(-7.5, 5.0, 0), (0.0, -0.1, 1), (44.999, 47.5, 200), (45.0, 47.5, 364), (62.0, 99.9, 365),
                               (45.0, 44.9, 31)])
    spread = v.choice("spread", [0.0, 6.0])
    day = lambda t: [t - spread] * 12 + [t + spread] * 12
    oat = day(a) * d + day(b) * (365 - d)
    cz = v.call(ClimateZone, 1, oat, [50.0] * 12)
    got = v.call(cz.get_oat_buckets)
    want = {}
    for t, n in ((a, d), (b, 365 - d)):
        if n:
            k = float(t // 5 * 5)
            want[k] = want.get(k, 0) + n
    v.check("days per bucket", {float(k): int(x) for k, x in got.items()} == want)


@harness("B03", samples=120, max_paths=100000)
def zone_data(v):
    """Every zone id yields its own column of the published data, the same through zip code and station."""
    import csv
    import os
    import ecoengine
    from ecoengine.objects.building.ClimateZone import ClimateZone
    base = os.path.join(os.path.dirname(ecoengine.__file__), "data", "climate_data")

    def rows(fn):
        with open(os.path.join(base, fn), newline="") as f:
            return list(csv.reader(f))
    w = rows("InletWaterTemperatures_ByClimateZone.csv")
    t = rows("DryBulbTemperatures_ByClimateZone.csv")
    z = v.choice("zone", [1, 2, 16, 17, 40, 95, 96] if v.symbolic else list(range(1, 97)))
    cz = v.call(ClimateZone.from_zone_id, z)
    v.check("zone recorded", cz.zone_id == z)
    h = v.choice("h", [0, 1, 4000, 8759] if v.symbolic else list(range(8760)))
    v.check("air temperature of the zone", v.eq(v.call(cz.get_oat_f, h, 60), float(t[1 + h][z - 1])))
    mo = v.choice("mo", [0, 6, 11] if v.symbolic else list(range(12)))
    hour = sum(MONTH_DAYS[:mo]) * 24
    v.check("inlet temperature of the zone", v.eq(v.call(cz.get_inlet_water_temp_f, hour, 60), float(w[1 + mo][z - 1])))
    v.check("hours of the year", len(t) - 1 == 8760)


@harness("B03", samples=100, wall=30)
def no_such_zone(v):
    """Zone numbers that are not in the published data are refused, also those a list would count from its end."""
    from ecoengine.objects.building.ClimateZone import ClimateZone
    z = v.int_("zone", -200, 300)
    v.assume(v.or_(z < 1, z > 96))
    v.check("refused", v.outcome(ClimateZone.from_zone_id, z).raised is not None)


@harness("B03", samples=100)
def zip_lookup(v):
    """A zip code or station resolves to the zone listed for it; unknown ones are refused."""
    import csv
    import os
    import ecoengine
    from ecoengine.objects.building.ClimateZone import ClimateZone
    base = os.path.join(os.path.dirname(ecoengine.__file__), "data", "climate_data")

    def rows(fn):
        with open(os.path.join(base, fn), newline="") as f:
            return list(csv.DictReader(f))
    zs = rows("ZipCode_ClimateZone_Lookup.csv")
    ss = rows("WeatherStation_ClimateZone_Lookup.csv")
    n = 6 if v.symbolic else 60
    r = v.choice("zip", [zs[i * (len(zs) - 1) // (n - 1)] for i in range(n)] if v.symbolic else zs)
    asint = v.choice("asint", [False, True])
    code = r["Zip Code"].strip()
    first = next(x for x in zs if x["Zip Code"].strip() == code)
    cz = v.call(ClimateZone.from_zip_code, int(code) if asint and not code.startswith("0") else code)
    v.check("zone of the zip code", cz.zone_id == int(first["Building CZ"]))
    s = v.choice("station", [ss[0], ss[len(ss) // 2], ss[-1]] if v.symbolic else ss)
    cz = v.call(ClimateZone.from_weather_station, s["Weather Station"])
    v.check("zone of the station", cz.zone_id == int(s["Building CZ"]))
    v.check("unknown zip refused", v.outcome(ClimateZone.from_zip_code, v.choice("badzip", ["00000", "9472", 99999])).raised is ValueError)
    v.check("unknown station refused", v.outcome(ClimateZone.from_weather_station, "nowhere").raised is ValueError)

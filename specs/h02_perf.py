"""H02: heater output, power, COP and unit scaling."""
from vengine.harness import harness, StandIn
from . import KBTUH_PER_KW

NAN = float("nan")


class Interpolator(StandIn):
    """Stands for the manufacturer table: an arbitrary affine function, or no data where told so."""

    def __init__(self, coef, nan_if):
        self.coef, self.nan_if = coef, nan_if

    def __call__(self, arr):
        row = arr[0]
        if self.nan_if(row):
            return [[NAN]]
        r = self.coef[0]
        for c, x in zip(self.coef[1:], row):
            r = r + c * x
        return [[r]]


@harness("H02")
def nominal(v):
    """A nominal heater delivers its capacity when on, nothing when off, in every condition."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    cap = v.real("cap", 0, sample=(0, 2000))
    w = v.call(WaterHeater.from_nominal_capacity, cap, None, None)
    oat = v.real("oat", -40, 130)
    out = v.real("out", 90, 200)
    inl = v.choice("inl", [None, 50.0, 110.0])
    v.check("off", v.eq(v.call(w.get_output_kbtuh, oat, out, inl), 0))
    v.call(w.turn_on)
    v.check("on", v.eq(v.call(w.get_output_kbtuh, oat, out, inl), cap))
    v.call(w.turn_off)
    v.check("off again", v.eq(v.call(w.get_output_kbtuh, oat, out, inl), 0))
    v.check("capacity regardless of state", v.eq(v.call(w.get_capacity_kbtuh, oat, out, inl), cap))


@harness("H02")
def no_map(v):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    w = v.call(WaterHeater, None, None, None)
    v.call(w.turn_on)
    v.check("no map, no output", v.eq(v.call(w.get_output_kbtuh, v.real("oat", -40, 130), 150.0), 0))
    v.check("no map, unknown power", v.call(w.get_power_in_kw, 50.0, 150.0) is None)


def table_map(v, two_input=None):
    from ecoengine.objects.components.heating.PerformanceMap import PklPerformanceMap
    two = v.choice("two", [False, True]) if two_input is None else two_input
    co = [v.real("o%d" % i, -10, 10, sample=(0, 1)) for i in range(3 if two else 4)]
    ci = [v.real("i%d" % i, -10, 10, sample=(0, 1)) for i in range(3 if two else 4)]
    hx = v.choice("hx", [False, True])
    inc = v.real("inc", 0, 20)
    n = v.int_("n", 1, sample=(1, 12))
    imax = v.real("imax", 60, 160)
    nominal = v.real("nom", 0, sample=(0, 900)) if v.choice("has_nom", [False, True]) else None
    hi_o, hi_i = v.real("hi_o", 0, 200), v.real("hi_i", 0, 100)
    lo_o, lo_i = v.real("lo_o", 0, 200), v.real("lo_i", 0, 100)
    dinl = v.real("dinl", 35, 80)
    oats = [v.real("oat0", -20, 30), v.real("oat1", 40, 60), v.real("oat2", 70, 110)]
    inl = v.real("inl", 35, 150) if v.choice("has_inl", [False, True]) else None
    out = v.real("out", 90, 190)
    oat = v.real("oat", -60, 150)
    return dict(P=PklPerformanceMap, two=two, co=co, ci=ci, hx=hx, inc=inc, n=n, imax=imax, nominal=nominal,
                hi=(hi_o, hi_i), lo=(lo_o, lo_i), dinl=dinl, oats=oats, inl=inl, out=out, oat=oat)


def build(v, d, nan_if):
    grid = [[(50.0, [120.0, 140.0]), (80.0, [120.0, 140.0])] for _ in d["oats"]]
    return v.call(d["P"], "X", Interpolator(d["co"], nan_if), Interpolator(d["ci"], nan_if), d["oats"], grid,
                  40.0, d["imax"], d["hi"][0], d["hi"][1], d["lo"][0], d["lo"][1], d["n"], d["two"], d["hx"],
                  d["inc"], d["nominal"], d["dinl"])


def affine(c, row):
    r = c[0]
    for a, x in zip(c[1:], row):
        r = r + a * x
    return r


@harness("H02")
def table(v):
    """Where the manufacturer table has data, output and power are its values times the number of units;
    at and above the hottest tabulated air temperature the high default applies."""
    d = table_map(v)
    m = build(v, d, lambda row: False)
    inl = d["inl"] if d["inl"] is not None else d["dinl"]
    out = d["out"]
    if d["hx"]:
        inl, out = inl + d["inc"], out + d["inc"]
    inl = v.mn(inl, d["imax"])
    row = [inl, d["oat"]] if d["two"] else [inl, out, d["oat"]]
    hot = v.le(d["oats"][2], d["oat"], exact=True)
    cap = v.call(m.get_capacity_kbtuh, d["oat"], d["out"], d["inl"])
    kw = v.call(m.get_power_in_kw, d["oat"], d["out"], d["inl"])
    v.check("capacity", v.eq(cap, v.ifthen(hot, d["hi"][0], affine(d["co"], row)) * d["n"] * KBTUH_PER_KW))
    v.check("power", v.eq(kw, v.ifthen(hot, d["hi"][1], affine(d["ci"], row)) * d["n"]))
    v.check("operating range starts at the coldest tabulated air temperature",
            v.iff(v.call(m.is_within_operating_bounds, d["oat"]), v.le(d["oats"][0], d["oat"], exact=True)))


@harness("H02")
def table_too_cold(v):
    """Below the coldest tabulated air temperature, where the table has no data, resistance heat covers the
    nominal capacity one for one."""
    d = table_map(v)
    v.assume(v.lt(d["oat"], d["oats"][0]))
    m = build(v, d, lambda row: True)
    cap = v.call(m.get_capacity_kbtuh, d["oat"], d["out"], d["inl"])
    kw = v.call(m.get_power_in_kw, d["oat"], d["out"], d["inl"])
    want = d["nominal"] if d["nominal"] is not None else d["lo"][0] * d["n"] * KBTUH_PER_KW
    v.check("resistance capacity", v.eq(cap, want))
    v.check("resistance power equals output", v.eq(kw * KBTUH_PER_KW, cap))
    cop = v.call(m.get_cop, d["oat"], d["out"], d["inl"])
    v.check("resistance COP is one", cop is None or v.eq(cop, 1.0))


@harness("H02")
def table_gap(v):
    """Inside the air temperature range but outside the table, the nearest tabulated point is used."""
    d = table_map(v, two_input=False)
    v.assume(v.between(d["oats"][0], d["oat"], d["oats"][1]))
    v.assume(v.lt(d["oat"], d["oats"][1]))
    half = (d["oats"][0] + d["oats"][1]) / 2
    v.assume(v.not_(v.between(half - 0.001, d["oat"], half + 0.001)))
    v.assume(v.lt(d["oats"][0], d["oat"]))
    oats = d["oats"]

    def nan_if(row):
        # no data strictly between the tabulated air temperatures
        return bool(row[2] > oats[0]) and bool(row[2] < oats[1])
    m = build(v, d, nan_if)
    inl = d["inl"] if d["inl"] is not None else d["dinl"]
    out = d["out"]
    if d["hx"]:
        inl, out = inl + d["inc"], out + d["inc"]
    inl = v.mn(inl, d["imax"])
    near = v.ifthen(v.lt(d["oat"], half), oats[0], oats[1])
    # the tabulated inlet at or above the request, nearest first; the last one if none
    snap = v.ifthen(v.and_(v.le(inl, 50.0, exact=True)), 50.0, 80.0)
    cap = v.call(m.get_capacity_kbtuh, d["oat"], d["out"], d["inl"])
    v.check("nearest air temperature and inlet",
            v.eq(cap, affine(d["co"], [snap, out, near]) * d["n"] * KBTUH_PER_KW))


@harness("H02")
def table_outlet_gap(v):
    """Where the table has data at its own outlet temperatures only, the nearest of them is used; a lift beyond it is
    made up in proportion, one for one."""
    d = table_map(v, two_input=False)
    v.assume(v.and_(v.lt(d["oats"][0], d["oat"]), v.lt(d["oat"], d["oats"][1])))
    half = (d["oats"][0] + d["oats"][1]) / 2
    v.assume(v.not_(v.between(half - 0.001, d["oat"], half + 0.001)))
    out = d["out"]
    inl = d["inl"] if d["inl"] is not None else d["dinl"]
    if d["hx"]:
        inl, out = inl + d["inc"], out + d["inc"]
    inl = v.mn(inl, d["imax"])
    v.assume(v.and_(v.lt(81.0, out), v.not_(v.between(129.999, out, 130.001)), v.not_(v.between(119.999, out, 120.001)),
                    v.not_(v.between(139.999, out, 140.001))))
    oats = d["oats"]

    def nan_if(row):
        return (bool(row[2] > oats[0]) and bool(row[2] < oats[1])) or not (bool(row[1] == 120.0) or bool(row[1] == 140.0))
    m = build(v, d, nan_if)
    near = v.ifthen(v.lt(d["oat"], half), oats[0], oats[1])
    snap = v.ifthen(v.le(inl, 50.0, exact=True), 50.0, 80.0)
    top = v.ifthen(v.lt(out, 130.0), 120.0, 140.0)
    o, i = affine(d["co"], [snap, top, near]), affine(d["ci"], [snap, top, near])
    extra = v.ifthen(v.lt(top, out), o * (out - top) / (out - snap), 0.0)
    cap = v.call(m.get_capacity_kbtuh, d["oat"], d["out"], d["inl"])
    kw = v.call(m.get_power_in_kw, d["oat"], d["out"], d["inl"])
    v.check("capacity at the nearest outlet", v.eq(cap, (o + extra) * d["n"] * KBTUH_PER_KW))
    v.check("power at the nearest outlet", v.eq(kw, (i + extra) * d["n"]))


class Linear(StandIn):
    """A performance map that tells its conditions apart."""

    def __init__(self, kw):
        self.kw = kw

    def get_capacity_kbtuh(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        return 3.0 * oat_f + 5.0 * outlet_temp_f + 7.0 * inlet_temp_f

    def get_power_in_kw(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        return None if not self.kw else 11.0 * oat_f + 13.0 * outlet_temp_f + 17.0 * inlet_temp_f


@harness("H02")
def heater_uses_map(v):
    """What a heater says of itself is what its map says of the same conditions; heat only while on."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    oat, out, inl = v.real("oat", -40, 130), v.real("out", 90, 200), v.real("inl", 35, 150)
    known = v.choice("known", [True, False])
    w = v.call(WaterHeater, Linear(known), None, None)
    cap, kw = 3.0 * oat + 5.0 * out + 7.0 * inl, 11.0 * oat + 13.0 * out + 17.0 * inl
    v.check("capacity of the map", v.eq(v.call(w.get_capacity_kbtuh, oat, out, inl), cap))
    v.check("nothing while off", v.eq(v.call(w.get_output_kbtuh, oat, out, inl), 0.0))
    v.call(w.turn_on)
    v.check("output of the map", v.eq(v.call(w.get_output_kbtuh, oat, out, inl), cap))
    got = v.call(w.get_power_in_kw, oat, out, inl)
    v.check("power of the map", (got is None) if not known else (got is not None and v.eq(got, kw)))


@harness("H02")
def needs_oat(v):
    d = table_map(v)
    m = build(v, d, lambda row: False)
    v.check("air temperature required",
            v.outcome(m.get_capacity_kbtuh, None, d["out"], d["inl"]).raised is ValueError)
    v.check("air temperature required for power",
            v.outcome(m.get_power_in_kw, None, d["out"], d["inl"]).raised is ValueError)


@harness("H02")
def cop(v):
    """COP is output heat over input power."""
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    cap = v.real("cap", sample=(0, 900)) if v.choice("hc", [True, False]) else None
    kw = v.real("kw", sample=(-5, 100)) if v.choice("hk", [True, False]) else None

    class M(PerformanceMap):
        def get_capacity_kbtuh(self, oat_f, outlet_temp_f, inlet_temp_f=None):
            return cap

        def get_power_in_kw(self, oat_f, outlet_temp_f, inlet_temp_f=None):
            return kw
    m = M(None)
    r = v.call(m.get_cop, 50.0, 140.0)
    if cap is None or kw is None:
        v.check("unknown", r is None)
    elif v.lt(0, kw, exact=True):
        v.check("COP", r is not None and v.eq(r * kw * KBTUH_PER_KW, cap))
    else:
        v.check("no COP without power", r is None)


def poly_entry(v, i, T, k):
    return {"T_F": T, "COP_coeffs": [v.real("c%d_%d" % (i, j), -5, 5) for j in range(k)],
            "inputPower_coeffs": [v.real("p%d_%d" % (i, j), -5, 5) for j in range(k)]}


def quad(c, x):
    return c[0] + c[1] * x + c[2] * x * x


@harness("H02")
def multi_point(v):
    """A multi-point map interpolates COP and power linearly in air temperature between its points,
    continues the last segment above, and falls back to resistance heat below its coldest point."""
    from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap
    Ts = [17.0, 35.0, 67.0]
    pm = [poly_entry(v, i, T, 3) for i, T in enumerate(Ts)]
    n = v.int_("n", 1, sample=(1, 12))
    nom = v.real("nom", 0, sample=(0, 900)) if v.choice("has_nom", [False, True]) else None
    dinl = v.real("dinl", 35, 80)
    inl = v.real("inl", 35, 150) if v.choice("has_inl", [False, True]) else None
    m = v.call(HPWHsimPerformanceMap, "X", pm, n, v.choice("mp", [False, True]), nom, dinl)
    oat = v.real("oat", -40, 130)
    out = v.real("out", 90, 190)
    x = inl if inl is not None else dinl
    cap = v.call(m.get_capacity_kbtuh, oat, out, inl)
    kw = v.call(m.get_power_in_kw, oat, out, inl)

    def lin(i, key):
        a, b = quad(pm[i][key], x), quad(pm[i + 1][key], x)
        return a + (b - a) * (oat - Ts[i]) / (Ts[i + 1] - Ts[i])
    low, mid = v.lt(oat, Ts[0], exact=True), v.lt(oat, Ts[1], exact=True)
    p = v.ifthen(mid, lin(0, "inputPower_coeffs"), lin(1, "inputPower_coeffs")) / 1000.0
    c = v.ifthen(mid, lin(0, "COP_coeffs"), lin(1, "COP_coeffs"))
    v.check("power", v.implies(v.not_(low), v.eq(kw, p * n)))
    v.check("capacity", v.implies(v.not_(low), v.eq(cap, c * p * n * KBTUH_PER_KW)))
    if nom is not None:
        v.check("resistance capacity when too cold", v.implies(low, v.eq(cap, nom)))
    else:
        er = v.mx(v.mx(quad(pm[0]["COP_coeffs"], dinl), 0.0) * quad(pm[0]["inputPower_coeffs"], dinl) / 1000.0
                  * KBTUH_PER_KW, 0.0) * n
        v.check("resistance capacity when too cold", v.implies(low, v.eq(cap, er)))
    v.check("resistance power when too cold", v.implies(low, v.eq(kw * KBTUH_PER_KW, cap)))
    v.check("operating range", v.iff(v.call(m.is_within_operating_bounds, oat), v.not_(low)))
    v.check("air temperature required", v.outcome(m.get_capacity_kbtuh, None, out, inl).raised is ValueError)


@harness("H02")
def single_point(v):
    """A single-point map evaluates its regression polynomial in air, outlet and inlet temperature."""
    from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap
    mp = v.choice("mp", [False, True])
    pm = [poly_entry(v, 0, 17.0, 6 if mp else 11)]
    n = v.int_("n", 1, sample=(1, 12))
    m = v.call(HPWHsimPerformanceMap, "X", pm, n, mp, None, 50.0)
    a = v.real("oat", -40, 130)
    o = v.real("out", 90, 190)
    i = v.real("inl", 35, 150)
    cap = v.call(m.get_capacity_kbtuh, a, o, i)
    kw = v.call(m.get_power_in_kw, a, o, i)

    def poly(c):
        ms = [1, a, i, a * a, i * i, a * i] if mp else \
            [1, a, o, i, a * a, o * o, i * i, a * o, a * i, o * i, a * o * i]
        r = 0
        for k, x in zip(c, ms):
            r = r + k * x
        return r
    p, c = poly(pm[0]["inputPower_coeffs"]), poly(pm[0]["COP_coeffs"])
    v.check("power", v.eq(kw, p * n))
    v.check("capacity", v.eq(cap, c * p * n * KBTUH_PER_KW))


def registry():
    import json
    import os
    import ecoengine
    p = os.path.join(os.path.dirname(ecoengine.__file__), "data", "preformanceMaps", "maps.json")
    with open(p) as f:
        return json.load(f)


def scaling(v, names, positive):
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    n = v.choice("n", [3])
    oat, out, inl = v.choice("op", [(17.0, 140.0, 50.0), (47.0, 125.0, 70.0), (95.0, 150.0, 60.0),
                                    (-30.0, 140.0, 50.0)])
    for name in names if v.symbolic else [v.choice("model", names)]:
        one = v.call(PerformanceMap.from_model_name, name)
        many = v.call(PerformanceMap.from_model_name, name, num_units=n)
        c1, k1 = v.call(one.get_capacity_kbtuh, oat, out, inl), v.call(one.get_power_in_kw, oat, out, inl)
        if positive:
            v.check("positive output", v.lt(0, c1))
            v.check("positive power", v.lt(0, k1))
        v.check("capacity scales", v.eq(v.call(many.get_capacity_kbtuh, oat, out, inl), c1 * n))
        v.check("power scales", v.eq(v.call(many.get_power_in_kw, oat, out, inl), k1 * n))


@harness("H02", samples=60, max_paths=100000)
def catalogue_regressions(v):
    """Every regression model of the catalogue (bounded: a grid of operating points): n units deliver and draw
    n times one unit."""
    scaling(v, sorted(k for k, e in registry().items() if "pkl_prefix" not in e), False)


@harness("H02", samples=60, max_paths=100000)
def catalogue_tables(v):
    """Every table model of the catalogue (bounded: a grid of operating points): positive output and power,
    n units deliver and draw n times one unit."""
    scaling(v, sorted(k for k, e in registry().items() if "pkl_prefix" in e), True)


@harness("H02")
def unknown_model(v):
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    nm = v.choice("nm", ["", "no such model", "MODELS_NYLE_C60A_SP "])
    v.check("unknown model rejected", v.outcome(PerformanceMap.from_model_name, nm).raised is ValueError)
    v.check("unknown heater model rejected",
            v.outcome(WaterHeater.from_model_name, nm, None, None).raised is ValueError)

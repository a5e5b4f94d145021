"""U01: tariff look-up; U02: tariff validation; U03: cost of a run; U04: tariff files."""
import os
import shutil
import tempfile
from vengine.harness import harness

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
START = [24 * sum(DAYS[:m]) for m in range(13)]


def month_of(h):
    return max(m for m in range(12) if START[m] <= h)


def rates(v, tag, n):
    return [v.real("%s%d" % (tag, i), 0, sample=(0, 50)) for i in range(n)]


def tariff(v, seasons, window, disc):
    """-> tracker, function hour -> (kind, energy rate, demand rate)"""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    n = len(seasons)
    pkd, pke, opd, ope = rates(v, "pkd", n), rates(v, "pke", n), rates(v, "opd", n), rates(v, "ope", n)
    dcd, dce = rates(v, "dcd", n), rates(v, "dce", n)
    base = v.real("base", 0, sample=(0, 500))
    kw = {}
    if disc:
        kw = dict(include_discount=True, dscnt_start_hour=[disc[0]] * n, dscnt_end_hour=[disc[1]] * n,
                  discnt_demand_charge=dcd, discnt_energy_charge=dce)
    one = n == 1 and v.choice("scalars", [True, False])
    f = (lambda x: x[0]) if one else (lambda x: x)
    if one and disc:
        kw = {k: (x if k == "include_discount" else x[0]) for k, x in kw.items()}
    uc = v.call(UtilityCostTracker.from_params, base, f([w[0] for w in window]), f([w[1] for w in window]),
                f(pkd), f(pke), f(opd), f(ope), f([s[0] for s in seasons]), f([s[1] for s in seasons]), **kw)

    def at(h):
        i = next(i for i, s in enumerate(seasons) if s[0] <= month_of(h) < s[1])
        hod = h % 24
        if window[i][0] <= hod < window[i][1]:
            return "peak", pke[i], pkd[i]
        if disc and (disc[0] <= hod < disc[1] if disc[0] <= disc[1] else (hod >= disc[0] or hod < disc[1])):
            return "discount", dce[i], dcd[i]
        return "off", ope[i], opd[i]
    return uc, at, base


CASES = [
    ([(0, 12)], [(16, 21)], None),
    ([(0, 12)], [(0, 24)], None),
    ([(0, 12)], [(7, 7)], None),
    ([(0, 5), (5, 9), (9, 12)], [(16, 21), (12, 20), (0, 1)], None),
    ([(0, 12)], [(16, 21)], (0, 6)),
    ([(0, 1), (1, 12)], [(6, 9), (17, 24)], (22, 6)),
    ([(0, 11), (11, 12)], [(23, 24), (5, 5)], (20, 24)),
    ([(0, 12)], [(16.5, 21)], (4.25, 6.75)),
    ([(0, 6), (6, 12)], [(6, 9.5), (0.5, 0.75)], (21.5, 5.5)),
]
HOURS = [0, 5, 6, 7, 8, 12, 15, 16, 20, 21, 22, 23, 24, 743, 744, 1415, 1416, 3623, 3624, 4343, 4349, 5831, 5832 + 20,
         6551, 6552, 7295, 7296, 8015, 8016, 8016 + 17, 8758, 8759]


def lookup(v, cases):
    case = v.choice("case", cases)
    uc, at, base = tariff(v, *case)
    hours = HOURS if v.symbolic else [v.choice("h", list(range(8760)))]
    for h, m, last in [(h, m, b) for h in hours for m in (60, 10, 1) for b in (0, 1)]:
        part = last * (60 // m - 1)
        step = h * (60 // m) + part
        kind, e, d = at(h)
        v.check("energy rate of the hour", v.eq(v.call(uc.get_energy_charge_at_step, step, m), e))
        p = v.call(uc.get_demand_period_at_step, step, m)
        k = v.real("kw", 0, sample=(0, 500))
        v.check("demand charge of the hour", v.eq(v.call(uc.get_demand_charge_for_period, p, k), d * k))
        v.check("period is listed", p in v.call(uc.get_all_demand_period_keys))
        v.check("peak flag", bool(uc.is_peak_map[p]) == (kind == "peak"))
        v.check("discount flag", bool(uc.is_discount_map[p]) == (kind == "discount"))
        n = 3 if case[2] else 2
        v.check("period belongs to the month", p // n == month_of(h))
    v.check("twelve base charges", v.eq(v.call(uc.get_yearly_base_charge), base * 12))


for _k in range(len(CASES)):
    def _mk(k):
        def f(v):
            """Every hour of the year is charged at the rate of its season and window; peak wins over discount."""
            lookup(v, [CASES[k]])
        return f
    harness("U01", "tariff_%d" % _k, samples=40, max_paths=100000)(_mk(_k))


@harness("U01", samples=120)
def any_tariff(v):
    """Native sampling over arbitrary windows and seasons (bounded)."""
    if v.symbolic:
        cut = 4
    else:
        cut = v.choice("cut", list(range(1, 12)))
    a = v.choice("a", [0, 9, 16] if v.symbolic else list(range(24)) + [h + 0.5 for h in range(23)])
    b = v.choice("b", [9, 24] if v.symbolic else list(range(25)) + [h + 0.25 for h in range(24)])
    v.assume(a <= b)
    seasons = [(0, cut), (cut, 12)]
    disc = v.choice("disc", [None] if v.symbolic else [None, (0, 6), (21, 5), (10, 18), (3, 3), (20.5, 3.5), (1.5, 12)])
    v.check("setup", True)
    if v.symbolic:
        return
    lookup(v, [(seasons, [(a, b), (0, 0)], disc)])


@harness("U01")
def hourly_rates(v):
    """A tariff given hour by hour charges each interval the rate of its hour."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    e = v.series("e", 8760, 0, 1)
    chart = [2 * month_of(h) for h in range(8760)]
    uc = v.call(UtilityCostTracker, chart, {k: 1.0 for k in range(24)}, {k: 0.5 for k in range(24)},
                {k: k % 2 == 1 for k in range(24)}, {k: False for k in range(24)}, 10.0, e)
    m = v.choice("m", [1, 2, 5, 10, 15, 30, 60])
    h = v.int_("hour", 0, 8759)
    r = v.int_("part", 0, 60 // m - 1)
    v.check("rate of the hour", v.eq(v.call(uc.get_energy_charge_at_step, h * (60 // m) + r, m), e[h]))


@harness("U01", max_paths=20000)
def odd_intervals(v):
    """Intervals of a length that does not divide an hour are charged the rate and period of the hour they start in."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    e = v.series("e", 8760, 0, 1)
    p = v.series("p", 8760, 0, 23)
    uc = v.call(UtilityCostTracker, p, {k: 1.0 for k in range(24)}, {k: 0.5 for k in range(24)},
                {k: k % 2 == 1 for k in range(24)}, {k: False for k in range(24)}, 10.0, e)
    m = v.choice("m", [7, 13, 29, 45, 58, 90, 120])
    if v.symbolic:
        step, k, rest = v.int_("step", 0), v.int_("hour", 0, 8759), v.int_("rest", 0, 59)
        v.assume(v.eq(step * m, 60 * k + rest))
    else:
        step = v.int_("step", 0, 8760 * 60 // m - 1)
        if v.choice("turn", [False, True]):
            step = step // 60 * 60          # starts on the hour
        k = step * m // 60
    v.check("rate of the hour", v.eq(v.call(uc.get_energy_charge_at_step, step, m), e[k]))
    v.check("period of the hour", v.eq(v.call(uc.get_demand_period_at_step, step, m), p[k]))


@harness("U01")
def demand_periods(v):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    p = v.series("p", 8760, 0, 23)
    uc = v.call(UtilityCostTracker, p, {k: 1.0 for k in range(24)}, {k: 0.5 for k in range(24)},
                {k: k % 2 == 1 for k in range(24)}, {k: False for k in range(24)}, 10.0)
    m = v.choice("m", [1, 2, 5, 10, 15, 30, 60])
    h = v.int_("hour", 0, 8759)
    r = v.int_("part", 0, 60 // m - 1)
    v.check("period of the hour", v.eq(v.call(uc.get_demand_period_at_step, h * (60 // m) + r, m), p[h]))
    bad = v.choice("bad", [-1, 24, 99])
    v.check("unknown period refused", v.outcome(uc.get_demand_charge_for_period, bad, 5.0).raised is ValueError)


# ------------------------------------------------------------------ U02
@harness("U02", samples=600)
def windows(v):
    """A tariff is accepted exactly when each peak window lies inside one day."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    a = v.real("a", sample=(-3, 27))
    b = v.real("b", sample=(-3, 27))
    ok = v.and_(v.le(0, a, exact=True), v.le(a, 23, exact=True), v.le(a, b, exact=True), v.le(b, 24, exact=True))
    # a window the loop over the year never has to evaluate is enough to decide acceptance
    o = validated(v, 10.0, [a], [b], [1.0], [1.0], [1.0], [1.0], [0], [12])
    if o.raised:
        v.check("refused with a value error", o.raised is ValueError)
        v.check("only windows outside a day refused", v.not_(ok))
    else:
        v.check("only windows inside a day accepted", ok)


def validated(v, *args):
    """The validation step alone where it is a function of its own (symbolically), else the whole construction."""
    from ecoengine.objects.building import UtilityCostTracker as m
    if not v.symbolic:
        return v.outcome(m.UtilityCostTracker.from_params, *args)
    o = v.outcome(m._validate_params, *args)
    if o.raised is TypeError:
        raise AttributeError("validation step has another signature")
    return o


@harness("U02", samples=400, max_paths=20000)
def seasons(v):
    """Season lists are accepted exactly when they partition the twelve months in order."""
    n = v.choice("n", [1, 2, 3])
    s = [v.int_("s%d" % i, -2, 14) for i in range(n)]
    e = [v.int_("e%d" % i, -2, 14) for i in range(n)]
    if not v.symbolic and v.choice("mk", [True, False]):
        s[0] = 0
        e[-1] = 12
        for i in range(1, n):
            s[i] = e[i - 1]
    o = validated(v, 10.0, [16] * n, [21] * n, [1.0] * n, [1.0] * n, [1.0] * n, [1.0] * n, s, e)
    ok = v.and_(v.eq(s[0], 0), v.eq(e[-1], 12), *[v.eq(s[i], e[i - 1]) for i in range(1, n)],
                *[v.lt(s[i], e[i], exact=True) for i in range(n)])
    if o.raised:
        v.check("refused with a value error", o.raised is ValueError)
        v.check("only non-partitions refused", v.not_(ok))
    else:
        v.check("only partitions accepted", ok)


@harness("U02")
def malformed(v):
    """Missing numbers and lists of different lengths are refused."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    args = [10.0, [16, 15], [21, 20], [1.0, 1.5], [0.2, 0.3], [0.5, 0.6], [0.1, 0.1], [0, 6], [6, 12]]
    i = v.choice("i", list(range(9)))
    bad = v.choice("bad", ["none", "text", "short", "long"])
    if i == 0:
        args[0] = None if bad == "none" else "ten"
    elif bad == "none":
        args[i] = [args[i][0], None]
    elif bad == "text":
        args[i] = ["x", args[i][1]]
    elif bad == "short":
        args[i] = args[i][:1]
    else:
        args[i] = args[i] + args[i][:1]
    v.check("refused", v.outcome(UtilityCostTracker.from_params, *args).raised is ValueError)


@harness("U02")
def accepted(v):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    a, b, good = v.choice("w", [(0, 0, True), (0, 24, True), (23, 24, True), (23, 23, True), (-1, 24, False),
                                (24, 24, False), (16, 15, False), (16, 25, False)])
    o = v.outcome(UtilityCostTracker.from_params, 10.0, a, b, 1.0, 0.2, 0.5, 0.1)
    v.check("accepted exactly inside the day", o.raised is (None if good else ValueError))


# ------------------------------------------------------------------ U03
def plain_tariff(v, disc, hourly=False):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    n = 3 if disc else 2
    dem = {k: v.real("d%d" % k, 0, sample=(0, 40)) for k in range(12 * n)}
    en = {k: v.real("e%d" % k, 0, sample=(0, 1)) for k in range(12 * n)}
    base = v.real("base", 0, sample=(0, 500))

    def kind(h):
        hod = h % 24
        return 1 if 8 <= hod < 16 else (2 if disc and hod < 4 else 0)
    chart = [month_of(h) * n + kind(h) for h in range(8760)]
    uc = v.call(UtilityCostTracker, chart, dem, en, {k: k % n == 1 for k in range(12 * n)},
                {k: k % n == 2 for k in range(12 * n)}, base, None, bool(disc))
    return uc, chart, dem, en, base, n


def recorded(v, ts, n, tm):
    """A run of n steps with arbitrary powers (some unknown)."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    sr = v.call(SimulationRun, 365 * 24 * 60, ts)
    kws, tms = [], []
    for i in range(n):
        p = None if i % 7 == 3 else v.real("p%d" % i, 0, sample=(0, 200))
        t = v.real("t%d" % i, 0, sample=(0, 90)) if tm else None
        v.call(sr.record_timestep, 1.0, 1.0, 1.0, p, 50.0, 50.0, [1.0] * 6, "normal", t, t, t)
        kws.append(p if p is not None else 0.0)
        tms.append(t if tm else 0.0)
    return sr, kws, tms


def expect(v, ts, n, chart, en, kws, tms):
    hrs = ts / 60.0
    energy = [0.0] * 12
    mx = {}
    split = {True: [0.0] * 12, False: [0.0] * 12}
    per = []
    for i in range(n):
        h = i * ts // 60
        p = chart[h]
        kw = kws[i] + tms[i]
        c = kw * hrs * en[p]
        energy[month_of(h)] = energy[month_of(h)] + c
        mx[p] = kw if p not in mx else v.mx(mx[p], kw)
        per.append((month_of(h), p, c))
    return energy, mx, per


def cost_case(v):
    """Steps an hour apart within the first days, or 512 hours apart across the whole year."""
    ts, n = v.choice("steps", [(60, 6), (60 * 512, 18), (30, 5)])
    return ts, n


@harness("U03", max_paths=50000, samples=100)
def annual_cost(v):
    """Annual cost is energy plus the highest power of each demand period plus twelve base charges."""
    disc, tm = v.choice("disc", [False, True]), v.choice("tm", [False, True])
    uc, chart, dem, en, base, np_ = plain_tariff(v, disc)
    ts, n = cost_case(v)
    sr, kws, tms = recorded(v, ts, n, tm)
    energy, mx, per = expect(v, ts, n, chart, en, kws, tms)
    got = v.call(sr.get_annual_utility_cost, uc)
    v.check("energy, demand and base", v.eq(got, v.sum_(energy) + v.sum_([dem[p] * k for p, k in mx.items()]) + 12 * base))
    total = v.call(sr.get_total_energy_kwh)
    v.check("total energy", v.eq(total, v.sum_([(a + b) * (ts / 60.0) for a, b in zip(kws, tms)])))
    v.check("peak power", v.eq(v.call(sr.get_peak_demand_kw), v.mx(*[a + b for a, b in zip(kws, tms)])))


@harness("U03", max_paths=50000, samples=100)
def monthly_cost(v):
    """The monthly breakdown is the annual cost split by calendar month."""
    disc, tm = v.choice("disc", [False, True]), v.choice("tm", [False, True])
    uc, chart, dem, en, base, np_ = plain_tariff(v, disc)
    ts, n = cost_case(v)
    sr, kws, tms = recorded(v, ts, n, tm)
    energy, mx, per = expect(v, ts, n, chart, en, kws, tms)
    b = v.call(sr.get_monthly_cost_breakdown, uc)
    for m in range(12):
        v.check("energy of the month", v.eq(b["energy"][m], energy[m]))
        v.check("demand of the month", v.eq(b["demand"][m], v.sum_([dem[p] * k for p, k in mx.items() if p // np_ == m] or [0.0])))
    v.check("base of the month", v.eq(b["base"], base))
    got = v.call(sr.get_annual_utility_cost, uc)
    v.check("months add up to the year", v.eq(got, v.sum_(list(b["energy"]) + list(b["demand"])) + 12 * b["base"]))


@harness("U03", max_paths=50000, samples=100)
def detailed_cost(v):
    """The detailed breakdown splits every month into peak and other periods without losing a cent."""
    disc, tm = v.choice("disc", [False, True]), v.choice("tm", [False, True])
    uc, chart, dem, en, base, np_ = plain_tariff(v, disc)
    ts, n = cost_case(v)
    sr, kws, tms = recorded(v, ts, n, tm)
    energy, mx, per = expect(v, ts, n, chart, en, kws, tms)
    b = v.call(sr.get_monthly_cost_breakdown_detailed, uc)
    for m in range(12):
        for pk, ke, kd in ((True, "energy_peak", "demand_peak"), (False, "energy_off_peak", "demand_off_peak")):
            we = v.sum_([c for mo, p, c in per if mo == m and (p % np_ == 1) == pk] or [0.0])
            wd = v.sum_([dem[p] * k for p, k in mx.items() if p // np_ == m and (p % np_ == 1) == pk] or [0.0])
            v.check(ke, v.eq(b[ke][m], we))
            v.check(kd, v.eq(b[kd][m], wd))
    v.check("base of the month", v.eq(b["base"], base))


@harness("U03", max_paths=50000, samples=100)
def monthly_energy(v):
    """Monthly energy of an annual run adds up, month by month, to the total energy."""
    tm = v.choice("tm", [False, True])
    ts, n = v.choice("steps", [(24 * 60, 365), (12 * 60, 70)])
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    sr = v.call(SimulationRun, 365 * 24 * 60, ts)
    hot = {0, 30, 31, 58, 59, 89, 90, 180, 333, 334, 364}
    want = [0.0] * 12
    tot = 0.0
    for i in range(n):
        p = v.real("p%d" % i, 0, sample=(0, 200)) if i in hot else 0.0
        t = (v.real("t%d" % i, 0, sample=(0, 90)) if i in hot else 0.0) if tm else None
        v.call(sr.record_timestep, 1.0, 1.0, 1.0, p, 50.0, 50.0, [1.0] * 6, "normal", t, t, t)
        m = month_of(i * ts // 60)
        e = (p + (t if tm else 0.0)) * (ts / 60.0)
        want[m] = want[m] + e
    got = v.call(sr.get_monthly_energy_kwh)
    for m in range(12):
        v.check("energy of the month", v.eq(got[m], want[m]))
    v.check("months add up", v.eq(v.sum_(list(got)), v.call(sr.get_total_energy_kwh)))
    short = v.call(SimulationRun, 3 * 24 * 60, 1)
    v.check("short runs have no monthly energy", all(x == 0 for x in v.call(short.get_monthly_energy_kwh)))


# ------------------------------------------------------------------ U04
def roundtrip(v, uc):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    d = tempfile.mkdtemp(prefix="verif-u04-")
    try:
        p = os.path.join(d, "t.csv")
        v.call(uc.to_csv, p)
        return v.call(UtilityCostTracker.from_csv, p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same_tariff(v, a, b, hours):
    for h in hours:
        v.check("energy rate kept", v.eq(v.call(a.get_energy_charge_at_step, h, 60), v.call(b.get_energy_charge_at_step, h, 60)))
        p = v.call(a.get_demand_period_at_step, h, 60)
        v.check("demand period kept", p == v.call(b.get_demand_period_at_step, h, 60))
        v.check("demand rate kept", v.eq(v.call(a.get_demand_charge_for_period, p, 7.0), v.call(b.get_demand_charge_for_period, p, 7.0)))
    v.check("base charge kept", v.eq(v.call(a.get_yearly_base_charge), v.call(b.get_yearly_base_charge)))


@harness("U04", samples=60, max_paths=100000)
def params_file(v):
    """A tariff written to a file and read back charges the same at every hour (bounded: listed tariffs)."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    case = v.choice("case", CASES if not v.symbolic else [CASES[3], CASES[5]])
    seasons_, window, disc = case
    n = len(seasons_)
    r = (lambda k, i: round(0.1 * k + 0.013 * i + 0.01, 4)) if v.symbolic else \
        (lambda k, i: round(v.real("r%d_%d" % (k, i), 0, 60), 4))
    kw = {}
    if disc:
        kw = dict(include_discount=True, dscnt_start_hour=[disc[0]] * n, dscnt_end_hour=[disc[1]] * n,
                  discnt_demand_charge=[r(1, i) for i in range(n)], discnt_energy_charge=[r(2, i) for i in range(n)])
    uc = v.call(UtilityCostTracker.from_params, 123.45, [w[0] for w in window], [w[1] for w in window],
                [r(3, i) for i in range(n)], [r(4, i) for i in range(n)], [r(5, i) for i in range(n)],
                [r(6, i) for i in range(n)], [s[0] for s in seasons_], [s[1] for s in seasons_], **kw)
    back = roundtrip(v, uc)
    same_tariff(v, uc, back, HOURS if v.symbolic else [v.choice("h%d" % i, list(range(8760))) for i in range(20)])


@harness("U04", samples=60, max_paths=100000)
def hourly_file(v):
    """A tariff with its own rate for every hour survives being written and read back (bounded)."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    k = v.choice("k", [0, 1, 2] if v.symbolic else list(range(40)))
    e = [round(0.05 + ((h * (7 + k)) % 97) / 500.0, 4) for h in range(8760)] if k else [0.2] * 8760
    chart = [2 * month_of(h) + (1 if 16 <= h % 24 < 21 else 0) for h in range(8760)]
    dem = {p: round(1.5 + p * 0.25, 4) for p in range(24)}
    em = {}
    for h, p in enumerate(chart):
        em.setdefault(p, e[h])
    uc = v.call(UtilityCostTracker, chart, dem, em, {p: p % 2 == 1 for p in range(24)},
                {p: False for p in range(24)}, 99.5, e)
    back = roundtrip(v, uc)
    same_tariff(v, uc, back, HOURS)


@harness("U04", samples=20, max_paths=100000)
def malformed_file(v):
    """Files with a wrong number of hours or without a required column are refused."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    d = tempfile.mkdtemp(prefix="verif-u04-")
    try:
        head = ["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"]
        n = v.choice("n", [0, 8759, 8760, 8761])
        drop = v.choice("drop", [None, 1, 2, 3, 4])
        cols = [i for i in range(5) if i != drop]
        row = ["d", "0", "0.1", "2.0", "5.0"]
        p = os.path.join(d, "t.csv")
        with open(p, "w") as f:
            f.write(",".join(head[i] for i in cols) + "\n")
            f.write((",".join(row[i] for i in cols) + "\n") * n)
        o = v.outcome(UtilityCostTracker.from_csv, p)
        if n == 8760 and drop is None:
            v.check("well formed file accepted", o.raised is None)
        else:
            v.check("malformed file refused", o.raised is ValueError)
        v.check("a source is required", v.outcome(UtilityCostTracker.from_csv).raised is ValueError)
    finally:
        shutil.rmtree(d, ignore_errors=True)

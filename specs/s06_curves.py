"""S06: sizing curves are made of sizings."""
from vengine.harness import harness
from .s01_sizing import SCHEDULES, controls
from .s05_frames import make, mf, ctrl_map, sized

HOT = [0.02, 0.01, 0.01, 0.01, 0.02, 0.05, 0.09, 0.1, 0.08, 0.05, 0.04, 0.03, 0.03, 0.03, 0.02, 0.03, 0.04, 0.06,
       0.09, 0.07, 0.05, 0.04, 0.02, 0.01]


def hours_of(run, step, peak):
    """Candidate run hours: from 24 down to the permitted hours, which are always one of them, and on down to where
    the plant would follow the peak hour."""
    out, h = [], 24.0
    while h > run:
        out.append(h)
        h -= step
    h = run
    while h > 1.0 / peak * 1.001:
        out.append(h)
        h -= step
    return out


def fresh(v, kind, b, h, m, slope, sched=None, fract=1.0):
    s = make(v, kind, h)
    o = v.outcome(s.size, b, control_schedule=sched, control_map=m, strat_slope=slope,
                  load_shift_fract_total_vol=fract)
    if o.raised is not None:
        return None
    return v.call(s.get_minimum_capacity_kbtuh), v.call(s.get_minimum_storage_storageT_gal)


def sizing_curve(v, kind, annual, run, step, slope):
    b = mf(v, annual)
    s, m, sched = sized(v, kind, b, False, run, slope)
    c = v.call(s.get_sizing_curve, b, step=step)
    hrs = list(c["heat_hours"])
    cand = hours_of(run, step, max(daily_peak()))
    points = []
    for h in cand[:len(hrs) + 1]:
        points.append(fresh(v, kind, b, h, m, slope))
    n = len(hrs)
    v.check("run hours are those between 24 and the peak", hrs == cand[:n])
    v.check("a point for every hour", len(c["capacity_kbtuh"]) == n and len(c["storage_storageT_gal"]) == n)
    for i in range(n):
        v.check("each point is a sizing at its run hours", points[i] is not None and v.and_(
            v.eq(c["capacity_kbtuh"][i], points[i][0], tol=1e-9), v.eq(c["storage_storageT_gal"][i], points[i][1], tol=1e-9)))
    if n < len(cand):
        v.check("the curve stops only where nothing can be sized", points[n] is None or v.eq(points[n][1], 0.0))
    k = int(c["recommended_index"])
    want = cand.index(run) if run in cand else len(cand)
    v.check("the recommended point is the permitted run hours", k == min(want, max(0, n - 1)))


def daily_peak():
    import json, os
    from ecoengine.objects.building import Building as B
    from ecoengine.objects.building.Building import Building
    b = Building.from_building_type("multi_family", 10.0, None, design_inlet_water_temp_f=50.0, design_oat_f=30.0)
    return [float(x) for x in b.peak_load_shape]


KINDS = ["plain", "parallel", "sprtp"]


def curve_points(v, kind):
    """Every point of a sizing curve is the sizing of a plant with those run hours, for every building size."""
    annual = v.choice("annual", [False, True])
    if v.symbolic:
        run, step, slope = 13.5 if annual else 16.0, 3.0, 2.8
    else:
        run, step, slope = v.choice("run", [16.0, 13.5, 24.0]), v.choice("step", [0.5, 2.0]), v.choice("slope", [2.8, 1.5])
    sizing_curve(v, kind, annual, run, step, slope)


for _k in KINDS:
    harness("S06", "curve_points_" + _k, wall=200, samples=20, max_paths=100000)(lambda v, k=_k: curve_points(v, k))


@harness("S06", samples=6)
def curve_points_swing(v):
    """Bounded: the same for swing plants, sized by minute simulation."""
    if not v.symbolic:
        kind = v.choice("kind", ["swing", "swing_er"])
        sizing_curve(v, kind, v.choice("annual", [False, True]), v.choice("run", [16.0, 13.5]), 3.0, 2.8)


# ------------------------------------------------------------------ load-shift curve
def share_of_days(p):
    """Share of the design day's use that covers a fraction p of the days of a multi-family building."""
    from statistics import NormalDist
    if p >= 1.0:
        return 1.0
    return min(1.0, NormalDist(0.7052988591269841, 0.08236427664525116).inv_cdf(p))


def ls_curve(v, kind, annual, run, slope, pct, picks):
    b = mf(v, annual)
    s, m, sched = sized(v, kind, b, True, run, slope)
    c = v.call(s.get_ls_sizing_curve, b, sched, m, load_shift_percent=pct)
    want = [i / 100.0 for i in range(25, 101)]
    v.check("one point per percent of days from 25 to 100", [round(100 * float(x), 9) for x in c["load_shift_percent"]]
            == list(range(25, 101)) and len(c["capacity_kbtuh"]) == 76 and len(c["storage_storageT_gal"]) == 76)
    for i in picks:
        p = fresh(v, kind, b, run, m, slope, sched, share_of_days(want[i]))
        v.check("each point is a sizing for its share of days", v.and_(
            p is not None, v.eq(c["capacity_kbtuh"][i], p[0], tol=1e-9), v.eq(c["storage_storageT_gal"][i], p[1], tol=1e-9)))
    k = c["recommended_index"]
    p = min(1.0, max(0.25, pct))
    v.check("the recommended point is the nearest percentage", 0 <= k <= 75 and abs(want[k] - p) <= 0.005 + 1e-9)


def ls_curve_points(v, kind):
    """Every point of a load-shift curve is the sizing for that share of days."""
    annual, run = v.choice("plant", [(False, 16.0), (True, 24.0)])
    if v.symbolic:
        ls_curve(v, kind, annual, run, 2.8, 0.8, [0, 1, 30, 74, 75])
    else:
        ls_curve(v, kind, annual, run, v.choice("slope", [2.8, 1.5]),
                 v.choice("pct", [1.0, 0.25, 0.8, 0.473, 1.7, 0.1, 0.999]), range(76))


for _k in KINDS:
    harness("S06", "ls_curve_points_" + _k, wall=200, samples=10, max_paths=100000)(
        lambda v, k=_k: ls_curve_points(v, k))


@harness("S06", samples=3)
def ls_curve_points_swing(v):
    """Bounded: the same for swing plants."""
    if not v.symbolic:
        ls_curve(v, "swing", v.choice("annual", [False, True]), v.choice("run", [16.0, 24.0]), 2.8,
                 v.choice("pct", [0.8, 1.0]), [0, 40, 75])


def coverage(v, kind):
    """Covering more days never needs less: capacity and storage of the load-shift curve rise with the percentage.
    Bounded for single-pass return-to-primary plants."""
    if v.symbolic and kind == "sprtp":
        return
    b = mf(v, False)
    s, m, sched = sized(v, kind, b, True, v.choice("run", [16.0, 24.0]), 2.8)
    c = v.call(s.get_ls_sizing_curve, b, sched, m)
    for key in ("capacity_kbtuh", "storage_storageT_gal"):
        y = c[key]
        for i in range(1, len(y)):
            v.check(key + " rises with coverage", v.le(y[i - 1], y[i], tol=1e-9))


for _k in KINDS:
    harness("S06", "coverage_" + _k, wall=200, samples=10, max_paths=100000)(lambda v, k=_k: coverage(v, k))


@harness("S06", samples=40)
def needs_a_shed_mode(v):
    """A load-shift curve is refused without a shed mode."""
    kind = v.choice("kind", ["plain", "parallel", "sprtp"])
    b = mf(v, False)
    s = make(v, kind)
    m = v.choice("map", [0, 1])
    o = v.outcome(s.get_ls_sizing_curve, b, ["normal"] * 24,
                  {"normal": controls(v, 0.4, 120.0, 0.1, 150.0, 150.0)} if m else {})
    v.check("refused", o.raised is ValueError)


# ------------------------------------------------------------------ plot
@harness("S06", samples=6)
def plotted(v):
    """Bounded: the plot shows the curve's points, with the recommended one marked."""
    if v.symbolic:
        return
    kind = v.choice("kind", ["plain", "sprtp"])
    ls = v.choice("ls", [False, True])
    b = mf(v, False)
    s, m, sched = sized(v, kind, b, ls, 16.0, 2.8)
    fig = s.plot_sizing_curve(b, sched, m, 0.8) if ls else s.plot_sizing_curve(b)
    c = s.get_ls_sizing_curve(b, sched, m, load_shift_percent=0.8) if ls else s.get_sizing_curve(b)
    xs = [100.0 * p for p in c["load_shift_percent"]] if ls else list(c["storage_storageT_gal"])
    ys = list(c["storage_storageT_gal"]) if ls else list(c["capacity_kbtuh"])
    line = fig.data[0]
    v.check("the line holds the points of the curve", sorted(zip(line.x, line.y)) == sorted(zip(xs, ys)))
    shown = [t for t in fig.data[1:] if t.visible is True]
    k = c["recommended_index"]
    v.check("one marker, at the recommended point", len(shown) == 1 and (shown[0].x[0], shown[0].y[0]) == (xs[k], ys[k]))
    act = fig.layout.sliders[0].active
    v.check("the slider starts there", (line.x[act], line.y[act]) == (xs[k], ys[k]))

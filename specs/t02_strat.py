"""T02/T03: stratified tank profile and operations."""
from vengine.harness import harness, Contract, Loop, CONTRACTS
from . import RHO


USED = ["fresh", "drawn", "heated"]


def tank(v, full=True, slope=None, used=USED):
    """An arbitrary stratified tank with cold inlet below hot outlet: filled to any height, then drawn from or heated,
    then at other inlet and outlet temperatures."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    V = v.real("V", 0, lo_open=True, sample=(20, 3000))
    s = v.real("slope", 0, lo_open=True, sample=(0.3, 6)) if slope is None else slope
    hot0 = v.real("hot0", 32, 212, sample=(110, 180))
    cold0 = v.real("cold0", 32, 212, sample=(35, 80))
    v.assume(v.lt(cold0, hot0))
    pct = v.real("pct", sample=(-0.5, 2.0))
    t = v.call(StratifiedTank, V, s)
    v.call(t.initialize, hot0, cold0, pct)
    if full:
        used = v.choice("used", used) if len(used) > 1 else used[0]
        if used == "drawn":
            v.call(t.draw_physical_gal, v.real("g0", 0, lo_open=True, sample=(1, 2000)), cold0)
        elif used == "heated":
            v.call(t.heat, v.real("q0", 0, lo_open=True, sample=(1, 2000)), 60.0, hot0)
        hot = v.real("hot", 32, 212, sample=(110, 180))
        cold = v.real("cold", 32, 212, sample=(35, 80))
        v.assume(v.lt(cold, hot))
        v.call(t.draw_physical_gal, 0.0, cold)
        v.call(t.heat, 0.0, 0.0, hot)
        return t, V, s, cold, hot
    return t, V, s, cold0, hot0


def T(v, t, f):
    return v.call(t.get_temperature_at_fraction, f)


@harness("T02")
def profile_bounds(v):
    t, V, s, cold, hot = tank(v)
    f = v.real("f", 0, 1)
    g = v.real("g", 0, 1)
    a, b = T(v, t, f), T(v, t, g)
    v.check("temperature between inlet and outlet", v.between(cold, a, hot))
    v.check("warmer towards the top", v.implies(v.le(f, g), v.le(a, b)))
    v.check("transition follows the stratification slope",
            v.implies(v.and_(v.lt(cold, a), v.lt(a, hot), v.lt(cold, b), v.lt(b, hot)),
                      v.eq(b - a, s * 100.0 * (g - f))))
    v.check("volume reported", v.eq(t.total_volume_gal, V))


@harness("T02")
def initial_profile(v):
    """After initialisation the cold zone ends at the requested height."""
    t, V, s, cold, hot = tank(v, full=False)
    pct = v.real("pct", sample=(-0.5, 2.0))
    f = v.real("f", 0, 1)
    a = T(v, t, f)
    ramp = cold + s * 100.0 * (f - (1.0 - pct))
    v.check("cold below, ramp above", v.eq(a, v.mx(cold, v.mn(hot, ramp))))


@harness("T02")
def usable_volume(v):
    """Usable volume is exactly the volume at or above supply temperature."""
    t, V, s, cold, hot = tank(v)
    sup = v.real("sup", 32, 212, sample=(100, 140))
    v.assume(v.and_(v.lt(cold, sup), v.le(sup, hot)))
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.check("within the tank", v.between(0, u, V))
    f = v.real("f", 0, 1)
    a = T(v, t, f)
    v.check("everything counted is hot enough", v.implies(v.lt(V - u, f * V), v.le(sup, a)))
    v.check("everything not counted is too cold", v.implies(v.lt(f * V, V - u), v.lt(a, sup)))
    sup2 = v.real("sup2", 32, 212, sample=(100, 140))
    v.assume(v.and_(v.lt(cold, sup2), v.le(sup2, hot)))
    u2 = v.call(t.get_usable_volume_supplyT_gal, sup2)
    v.check("a hotter supply leaves no more usable", v.implies(v.le(sup, sup2), v.le(u2, u)))


def sandwich(v, t, V, a, b):
    """The average draw temperature is the mean of the profile over the drawn volume:
    sandwich for every pair of volumes, which characterises the integral."""
    A = v.call(t.get_average_draw_temp_f, a)
    B = v.call(t.get_average_draw_temp_f, b)
    Ta, Tb = T(v, t, 1.0 - a / V), T(v, t, 1.0 - b / V)
    T1 = T(v, t, 1.0)
    v.check("upper sandwich", v.le(b * B - a * A, (b - a) * Ta))
    v.check("lower sandwich", v.le((b - a) * Tb, b * B - a * A))
    v.check("first layer", v.between(Ta, A, T1))


def two_volumes(v, V, top=2000):
    a = v.real("a", 0, lo_open=True, sample=(0.5, top))
    b = v.real("b", 0, lo_open=True, sample=(0.5, top))
    v.assume(v.and_(v.lt(a, b), v.le(b, V)))
    return a, b


@harness("T02", timeout_ms=60000)
def average_draw(v):
    """For tanks of any size and fill, at any later inlet and outlet temperatures (bounded: after use)."""
    t, V, s, cold, hot = tank(v, used=["fresh"] if v.symbolic else USED)
    a, b = two_volumes(v, V)
    sandwich(v, t, V, a, b)


def average_draw_used(v, how, V):
    """After draws and heating, in tanks of some sizes."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    s = v.real("slope", 0, lo_open=True, sample=(0.3, 6))
    hot = v.real("hot", 32, 212, sample=(110, 180))
    cold = v.real("cold", 32, 212, sample=(35, 80))
    v.assume(v.lt(cold, hot))
    pct = v.real("pct", sample=(-0.5, 2.0))
    t = v.call(StratifiedTank, V, s)
    v.call(t.initialize, hot, cold, pct)
    if how == "drawn":
        v.call(t.draw_physical_gal, v.real("g0", 0, lo_open=True, sample=(1, 2000)), cold)
    else:
        v.call(t.heat, v.real("q0", 0, lo_open=True, sample=(1, 2000)), 60.0, hot)
    a, b = two_volumes(v, V, V)
    sandwich(v, t, V, a, b)


for _how in ("drawn", "heated"):
    for _V in (100.0, 320.0):
        harness("T02", "average_draw_%s_%d" % (_how, _V), timeout_ms=60000)(
            lambda v, how=_how, V=_V: average_draw_used(v, how, V))


@harness("T02")
def average_draw_limits(v):
    t, V, s, cold, hot = tank(v)
    g = v.real("g", sample=(-10, 6000))
    A = v.call(t.get_average_draw_temp_f, g)
    v.check("between inlet and outlet", v.between(cold, A, hot))
    full = v.call(t.get_average_draw_temp_f, V)
    v.check("a draw beyond the tank is the whole tank", v.implies(v.le(V, g), v.eq(A, full)))


@harness("T02")
def strat_factor(v):
    t, V, s, cold, hot = tank(v, full=False)
    on = v.real("on", 0, 1)
    sup = v.real("sup", 32, 212, sample=(100, 140))
    sto = v.real("sto", 32, 212, sample=(100, 180))
    r = v.call(t.get_stratification_factor, on, sup, sto)
    v.check("share above supply temperature", v.eq(r, v.mx(sto - sup, 0.0) / s * (1.0 - on)))


# ------------------------------------------------------------------ T03
@harness("T03")
def physical_draw(v):
    """Drawing moves the profile up by the drawn volume, never past the floor."""
    t, V, s, cold, hot = tank(v)
    g = v.real("g", sample=(-20, 3000))
    cold2 = v.real("cold2", 32, 212, sample=(35, 80))
    v.assume(v.lt(cold2, hot))
    f = v.real("f", 0, 1)
    gg = v.mx(g, 0.0) / V
    v.assume(v.le(gg, f))
    before = T(v, t, f - gg)
    if v.choice("floor", [False, True]):
        sup = v.real("sup", 32, 212, sample=(100, 140))
        v.assume(v.and_(v.lt(cold2, sup), v.le(sup, hot)))
        v.call(t.draw_physical_gal, g, cold2, sup)
        floor = v.mx(cold2, sup - s * 100.0 * (1.0 - f))
    else:
        v.call(t.draw_physical_gal, g, cold2)
        floor = cold2
    after = T(v, t, f)
    v.check("profile shifted by the drawn volume", v.implies(
        v.and_(v.gt(g, 0), v.lt(cold, before), v.lt(before, hot)), v.eq(after, v.mx(before, floor))))
    v.check("cold stays cold", v.implies(v.and_(v.gt(g, 0), v.eq(before, cold)), v.le(after, v.mx(cold, floor))))
    v.check("hot stays hot", v.implies(v.and_(v.gt(g, 0), v.eq(before, hot)), v.eq(after, hot)))
    v.check("no draw, no change", v.implies(v.and_(v.le(g, 0), v.lt(v.mx(cold, cold2), before)), v.eq(after, before)))
    v.check("volume unchanged", v.eq(t.total_volume_gal, V))


@harness("T03")
def physical_draw_usable(v):
    """Usable volume falls by exactly the volume drawn and stops at empty."""
    t, V, s, cold, hot = tank(v)
    g = v.real("g", 0, sample=(0, 3000))
    sup = v.real("sup", 32, 212, sample=(100, 140))
    v.assume(v.and_(v.lt(cold, sup), v.le(sup, hot)))
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.call(t.draw_physical_gal, g, cold, sup)
    u2 = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.check("usable reduced by the draw", v.implies(v.lt(u, V), v.eq(u2, v.mx(u - g, 0.0))))
    v.check("usable never falls by more", v.le(v.mx(u - g, 0.0), u2))
    v.check("usable never grows", v.le(u2, u))


@harness("T03")
def heating(v):
    """Heat moves the profile down by the heated volume and stops at fully hot."""
    t, V, s, cold, hot = tank(v)
    q = v.real("q", sample=(-50, 800))
    dur = v.real("dur", 0, sample=(0, 60))
    f = v.real("f", 0, 1)
    gal = v.mx(q, 0.0) * dur / 60.0 * 1000.0 / (RHO * (hot - cold))
    h = gal / V
    v.assume(v.le(f + h, 1.0))
    before = T(v, t, f + h)
    v.call(t.heat, q, dur, hot)
    after = T(v, t, f)
    v.check("profile shifted by the heated volume", v.eq(after, before))
    v.check("volume unchanged", v.eq(t.total_volume_gal, V))


@harness("T03")
def heating_usable(v):
    """Usable volume grows by exactly the heated volume and stops at the tank volume."""
    t, V, s, cold, hot = tank(v)
    q = v.real("q", 0, sample=(0, 800))
    dur = v.real("dur", 0, sample=(0, 60))
    sup = v.real("sup", 32, 212, sample=(100, 140))
    v.assume(v.and_(v.lt(cold, sup), v.le(sup, hot)))
    gal = q * dur / 60.0 * 1000.0 / (RHO * (hot - cold))
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.call(t.heat, q, dur, hot)
    u2 = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.check("usable grows by the heated volume", v.implies(v.lt(0, u), v.eq(u2, v.mn(u + gal, V))))
    v.check("usable never grows by more", v.le(u2, v.mn(u + gal, V)))
    v.check("usable never falls", v.le(u, u2))


@harness("T03")
def no_banked_heat(v):
    """Heat beyond a fully hot tank is not stored: the next draw cools the bottom at once."""
    t, V, s, cold, hot = tank(v)
    q = v.real("q", 0, lo_open=True, sample=(10, 5000))
    dur = v.real("dur", 0, sample=(0, 600))
    g = v.real("g", 0, sample=(0, 500))
    f = v.real("f", 0, 1)
    v.call(t.heat, q, dur, hot)
    v.call(t.draw_physical_gal, g, cold)
    a = T(v, t, f)
    v.check("bottom cools after the draw", v.le(a, v.mx(cold, v.mn(hot, hot - s * 100.0 * (g / V - f)))))


@harness("T03")
def recirc_return(v):
    """Recirculation loss moves the profile up by the equivalent hot volume."""
    t, V, s, cold, hot = tank(v)
    flow = v.real("flow", 0, sample=(0, 30))
    dur = v.real("dur", 0, sample=(0, 60))
    ret = v.real("ret", 32, 212, sample=(90, 130))
    if v.choice("given_supply", [True, False]):
        sup = v.real("sup", 32, 212, sample=(100, 140))
        ts = sup
    else:
        sup, ts = None, hot
    v.assume(v.le(ret, ts))
    f = v.real("f", 0, 1)
    h = flow * dur * (ts - ret) / (hot - cold) / V
    v.assume(v.le(h, f))
    before = T(v, t, f - h)
    if sup is None:
        v.call(t.add_recirc_return, flow, ret, dur)
    else:
        v.call(t.add_recirc_return, flow, ret, dur, sup)
    v.check("profile shifted by the equivalent volume", v.eq(T(v, t, f), before))
    v.check("volume unchanged", v.eq(t.total_volume_gal, V))


# ------------------------------------------------------------------ T03, draws stated at supply temperature
def top_heat_of(v, V, cold, hot, m, s, x):
    """Integral over the top x gallons of the excess over cold of the profile cold + m (y + s), kept between cold and hot."""
    d = hot - cold
    w = d / m
    lo, hi = 100.0 - 100.0 * x / V + s, 100.0 + s
    p0, p1 = v.mx(0.0, v.mn(w, lo)), v.mx(0.0, v.mn(w, hi))
    return V / 100.0 * (m * (p1 - p0) * (p1 + p0) / 2.0 + d * (v.mx(0.0, hi - w) - v.mx(0.0, lo - w)))


def args_of(t, cold=None, hot=None, shift=None):
    cold = t._inlet_temp_f if cold is None else cold
    hot = t._outlet_temp_f if hot is None else hot
    shift = t._delta_gal if shift is None else shift
    return t.total_volume_gal, cold, hot, t.strat_slope, shift / t.total_volume_gal * 100.0 + (t._strat_inter - cold) / t.strat_slope


def top_heat(v, args, x):
    return v.term("top_heat", lambda *a: top_heat_of(v, *a), *args, x)


def any_state(v):
    """A stratified tank in any state, reachable or not."""
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    V = v.real("V", 0, lo_open=True, sample=(20, 3000))
    m = v.real("slope", 0, lo_open=True, sample=(0.3, 6))
    t = v.call(StratifiedTank, V, m)
    [getattr(t, k) for k in ("_inlet_temp_f", "_outlet_temp_f", "_delta_gal", "_strat_inter")]    # else not applicable
    t._inlet_temp_f, t._outlet_temp_f = v.real("cold", 32, 212, sample=(35, 80)), v.real("hot", 32, 212, sample=(110, 180))
    v.assume(v.lt(t._inlet_temp_f, t._outlet_temp_f))
    t._delta_gal = v.real("delta", sample=(-3000, 3000))
    t._strat_inter = v.real("inter", sample=(-600, 200))
    return t


Contract("StratifiedTank.get_average_draw_temp_f",
         requires=lambda v, t, x: v.and_(v.lt(t._inlet_temp_f, t._outlet_temp_f), v.lt(0.0, t.strat_slope), v.lt(0.0, t.total_volume_gal)),
         ensures=lambda v, old, r, t, x: [
             ("mean of the profile", v.implies(v.lt(0.0, x, exact=True), v.eq(
                 v.mn(x, t.total_volume_gal) * (r - t._inlet_temp_f), top_heat_of(v, *args_of(t), v.mn(x, t.total_volume_gal))))),
             ("between cold and hot", v.between(t._inlet_temp_f, r, t._outlet_temp_f))],
         gives=lambda v, old, r, t, x: [
             ("mean of the profile", v.implies(v.lt(0.0, x), v.eq(
                 v.mn(x, t.total_volume_gal) * (r - t._inlet_temp_f), top_heat(v, args_of(t), v.mn(x, t.total_volume_gal))))),
             ("between cold and hot", v.between(t._inlet_temp_f, r, t._outlet_temp_f))],
         setup=lambda v: (lambda t: (t.get_average_draw_temp_f.__func__, (t, v.real("x", sample=(-10, 3000)))))(any_state(v)))


@harness("T03", timeout_ms=60000)
def mean_of_the_top(v):
    """The mean temperature of a drawn volume is that of the profile, in every state."""
    CONTRACTS["StratifiedTank.get_average_draw_temp_f"].body(v)


@harness("T03", timeout_ms=60000)
def top_heat_lemma(v):
    """More water from the top carries more heat, by no more than if all of it were hot."""
    V, m = v.real("V", 0, lo_open=True, sample=(20, 3000)), v.real("slope", 0, lo_open=True, sample=(0.3, 6))
    cold, hot = v.real("cold", 32, 212, sample=(35, 80)), v.real("hot", 32, 212, sample=(110, 180))
    s, x, y = v.real("s", sample=(-200, 200)), v.real("x", 0, sample=(0, 1000)), v.real("y", 0, sample=(0, 1000))
    v.assume(v.and_(v.lt(cold, hot), v.le(x, y)))
    a, b = [top_heat_of(v, V, cold, hot, m, s, z) for z in (x, y)]
    v.check("rises", v.le(a, b))
    v.check("no faster than hot water", v.le(b - a, (y - x) * (hot - cold)))
    v.check("starts at nothing", v.eq(top_heat_of(v, V, cold, hot, m, s, 0.0), 0.0))


def more(v, args, x, y):
    """top_heat_lemma for 0 <= x <= y"""
    a, b = top_heat(v, args, x), top_heat(v, args, y)
    v.lemma(v.implies(v.and_(v.le(0.0, x), v.le(x, y)), v.and_(v.le(a, b), v.le(b - a, (y - x) * (args[2] - args[1])))))


def search(v, L, k, p):
    t, lo, hi = L["self"], L["lo"], L["hi"]
    args, V = args_of(t), t.total_volume_gal
    want = L["volume_supplyT_gal"] * (L["supply_temp_f"] - L["cold_temp_f"])
    first = L["physical_vol"]
    more(v, args, 0.0, lo)
    v.lemma(v.eq(top_heat(v, args, 0.0), 0.0))
    return [("nothing less will do", v.and_(v.le(first, lo), v.le(top_heat(v, args, lo), want))),
            ("nothing more is needed", v.or_(v.eq(hi, V), v.le(want, top_heat(v, args, hi)))),
            ("in the tank", v.and_(v.le(lo, hi), v.le(hi, V))),
            ("halved each time", v.eq((hi - lo) * p, V - first))]


def found(v, L):
    args, lo, hi = args_of(L["self"]), L["lo"], L["hi"]
    more(v, args, lo, (lo + hi) / 2.0)
    more(v, args, (lo + hi) / 2.0, hi)


def supply_draw(v):
    """A draw stated at supply temperature takes from the top the volume whose heat above the make-up water is that of the
    draw, or all there is; where that would pass the floor, the profile stops there."""
    t = any_state(v)
    V = t.total_volume_gal
    cold, hot, sup = v.real("cold2", 32, 212, sample=(35, 80)), v.real("hot2", 32, 212, sample=(120, 180)), v.real("sup", 32, 212, sample=(100, 120))
    v.assume(v.and_(v.lt(cold, sup), v.le(sup, hot)))
    want = v.real("draw", sample=(-5, 800))
    v.assume(v.le(want * (sup - cold), V * (hot - cold)))
    d0 = t._delta_gal
    args = args_of(t, cold, hot)
    v.call(t.draw, want, cold, sup, hot)
    v.check("temperatures taken over", v.and_(v.eq(t._inlet_temp_f, cold), v.eq(t._outlet_temp_f, hot)))
    v.check("tank unchanged", v.and_(v.eq(t.total_volume_gal, V), v.eq(t.strat_slope, args[3])))
    x = d0 - t._delta_gal
    heat = want * (sup - cold)
    floor = (sup - t._strat_inter) / t.strat_slope * V / 100.0 - V           # where the top is at supply temperature
    eps = 1e-6 * v.mx(V, hot - cold) + (hot - cold) * V / 2.0 ** 50
    v.check("no draw, no change", v.implies(v.le(want, 0.0, exact=True), v.eq(x, 0.0)))
    at_floor = v.eq(t._delta_gal, floor)
    v.check("not past the floor", v.implies(v.lt(0.0, want, exact=True), v.le(floor, t._delta_gal)))
    more(v, args, x, V)
    if not v.symbolic and abs(t._delta_gal - floor) < 1e-9 * V:
        xx = v.mn(x, V)
        v.check("all drawn was wanted", x <= 0 or want <= 0 or v.le(top_heat(v, args, xx), heat + eps))
        return
    v.check("takes the heat of the draw", v.implies(v.and_(v.lt(0.0, want, exact=True), v.not_(at_floor)), v.and_(
        v.between(0.0, x, V), v.le(top_heat(v, args, x), heat + eps),
        v.or_(v.le(heat - eps, top_heat(v, args, x)), v.le(V - 1e-6 - V / 2.0 ** 51, x)))))


harness("T03", "draw_at_supply", uses=["StratifiedTank.get_average_draw_temp_f"], timeout_ms=40000,
        loops={"StratifiedTank.draw": Loop(["lo", "hi"], search, after=found)})(supply_draw)


@harness("T03", samples=200)
def draw_at_supply_profile(v):
    """Bounded: the same seen from outside: the profile after the draw is the old one moved up by the volume drawn."""
    if v.symbolic:
        return
    t, V, s, cold, hot = tank(v)
    sup = v.real("sup", 100, 110)
    want = v.real("draw", 0, 300, lo_open=True) * V / 300.0
    v.call(t.heat, 0.0, 0.0, hot)
    prof = lambda f: v.call(t.get_temperature_at_fraction, f)
    n = 1000
    layer = [prof(1.0 - (k + 0.5) / n) - cold for k in range(n)]
    need, x = want * (sup - cold), 0.0
    for y in layer:
        got = y * V / n
        if got >= need:
            x += V / n * (need / got if got > 0 else 0.0)
            break
        need -= got
        x += V / n
    fs = [0.0, 0.2, 0.4, 0.5, 0.6, 0.8, 1.0]
    old = [prof(f - x / V) for f in fs]
    v.call(t.draw, want, cold, sup, hot)
    for f, o in zip(fs, old):
        target = max(cold, min(hot, max(o, sup - s * 100.0 * (1.0 - f))))
        if sum(layer[:int(n * min(1.0, x / V)) + 1][-3:]) > 1.0 or x >= V * 0.999:
            v.check("profile moved by the volume drawn", abs(prof(f) - target) < 0.01 + s * 0.2 if x < V * 0.999 else True)
